#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: the table below)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

Q = "quickly/"
D = "quickly/dom/"

prop("P01", "Tree edits keep children lists and parent links consistent",
 "Whatever sequence of building and editing operations (append, extend, insert, item and slice assignment, deletion, taking a slice, replacing a node) is applied to trees of nodes, every children list holds exactly the nodes, in exactly the order, that the same operation gives on a plain list, every node that was put into a list reports that list's owner as its parent, and no other node's parent or children change. "
 "Copying yields an equal, parentless tree that shares no node with the original and leaves the original untouched; a copy without children has none. "
 "Two trees compare as equivalent exactly when they have the same shape, node types and node contents, and comparing, testing membership or looking up an index always goes by node identity.",
 ["histories"], "all finite sequences of tree operations over any number of trees and nodes, with any index or slice including negative and out-of-range ones",
 "tests/test_node.py builds one fixed 15-node tree and checks a handful of queries; no test applies a sequence of mutations and looks at all parents and children afterwards.",
 [Q+"node.py"],
 [("append/extend/insert/__setitem__ set the parent weak reference", Q+"node.py Node"), ("replace_with, take, copy, equals", Q+"node.py Node")],
 ["Node.parent", "list(node)", "Node.equals", "Node.index"],
 [("_parent", "weak reference to parent", Q+"node.py"), ("list contents", "children", Q+"node.py")])

prop("P02", "All tree walks and queries agree with one document order",
 "For every node of every tree, walking the ancestors, the siblings, forward, backward, and the descendants in either direction visits exactly the nodes that the tree's document order prescribes, each once, in order, never leaving the boundary node if one is given; skipping a node's descendants on request omits exactly those. "
 "Paths from the root, depth, height, root, first/last tests and common ancestors with their paths are consistent with the same order: following a node's path from the root leads to that node, paths compare as document order, and the common ancestor is the youngest node that contains both. "
 "Searches by type, by example node or by predicate return exactly the subsequence of the corresponding walk that matches.",
 ["inputs", "histories"], "all ordered trees, all pairs of nodes, all boundary nodes and all choices of nodes whose descendants are skipped",
 "tests/test_node.py asserts a few walks on one fixed tree; walks with skipping at arbitrary nodes, upto boundaries in both directions and common ancestors for all pairs are not reached.",
 [Q+"node.py"],
 [("forward/backward/descendants generators", Q+"node.py Node"), ("common_ancestor(_with_trail)", Q+"node.py Node"), ("query operators and filter", Q+"node.py Common")],
 ["Node.forward", "Node.backward", "Node.descendants", "Node.trail", "operators"])

prop("P03", "A range visits exactly the nodes between its boundaries",
 "A range of a tree, given by optional start and end nodes, contains exactly the nodes that lie in document order from the start node (with its descendants) up to and including the end node (without its descendants), plus - as partly contained - their ancestors; emptiness, fullness, containment, intersection and the in-range test all agree with that. "
 "Every way of moving through it (iterating a level forward or in reverse, entering and leaving levels, going to a node, resetting, selecting an index, walking forward, backward, over descendants, children or ancestors, with or without skipping descendants) yields exactly the contained nodes of that walk in order, and the current node, index, depth and path always describe the last visited node. "
 "Extracting the tree of a range gives a copy of exactly the contained nodes with their ancestors up to the current node, and a range derived from the current node covers exactly the part of the range below that node.",
 ["inputs", "histories"], "all ordered trees, all pairs of optional start and end nodes, and all sequences of cursor movements",
 "tests/test_node.py checks a few ranges on one tree; combinations of boundaries with cursor movement sequences are not enumerated.",
 [Q+"node.py"],
 [("Range._Level start/end per depth, child()", Q+"node.py Range._Level"), ("enter/leave/goto/reset stack", Q+"node.py Range")],
 ["Range.node", "Range.index", "Range.depth", "Range.trail", "Range.start", "Range.end"],
 [("_stack", "iteration levels", Q+"node.py Range"), ("start_trail/end_trail", "boundaries", Q+"node.py Range")])

prop("P04", "Editing through a range keeps its boundaries on the same nodes",
 "When children are replaced, inserted or deleted through a range at its current level, the tree changes exactly as the plain list operation would change it, the start and end nodes of the range remain valid positions in the changed tree, and every node that was inside the range and was not removed is still inside, and every node that was outside and not removed is still outside. "
 "When a boundary node itself is replaced its replacement becomes the boundary; when it is removed the range shrinks to the remaining nodes that were inside. "
 "A forward iteration that is in progress continues after the edit with the next node not yet visited, visiting no node twice and skipping none.",
 ["histories"], "all ranges over all trees, all sequences of item and slice edits and deletions within the current level interleaved with iteration",
 "tests/test_node.py performs four edits through a range on one fixed tree and checks a few trails afterwards.",
 [Q+"node.py"],
 [("Range.__setitem__/__delitem__ boundary adjustment", Q+"node.py Range"), ("Range.node setter", Q+"node.py Range")],
 ["Range.start_node", "Range.end_node", "iteration", "Range.node"])

prop("P05", "Argument collecting attaches each item to the right element",
 "When a flat list of parsed items is combined into a tree, every element that takes arguments receives, in order, exactly the following items that match its declared argument pattern, nested elements collect their own arguments first, and an item that does not match ends collecting for that element. "
 "No item is lost, duplicated or reordered: the document order of the resulting tree is the order of the input items, and items that are nobody's argument end up as top-level results in the original order.",
 ["inputs"], "all finite sequences of items, with any combination of argument patterns, optional patterns and sticky arguments",
 "The tests parse a few fixed documents; argument patterns nested in each other or cut short by non-matching items are hardly reached.",
 [D+"element.py", D+"lily.py"],
 [("build_tree", D+"element.py"), ("signatures()", D+"element.py, "+D+"lily.py")],
 ["tree returned for parsed text"])

prop("P06", "Elements keep their children in canonical order when edited by property",
 "Setting a note's octave, accidental display, octave check, duration or duration scaling, and adding child elements through the element's own add operation in any order, always yields the children in the element's canonical order with at most one child of each kind. "
 "Reading the property back returns exactly the value set, unsetting it removes it, the other properties and the music around it do not change, and the written text reads back as an element with the same property values.",
 ["histories"], "all elements with such properties and all sequences of property assignments with all legal values",
 "tests touch single assignments on a few notes; sequences of set/unset in different orders and their written result are not covered.",
 [D+"element.py", D+"lily.py"],
 [("Element.add / child_order", D+"element.py"), ("Pitchable/HandleDuration/Note property setters", D+"lily.py")],
 ["Note.octave", "Note.duration", "Element.write"])

prop("P07", "Writing a tree combines whitespace preferences by one rule",
 "The written text of any element tree is the concatenation, in document order, of each element's opening text, its children and its closing text, where between two consecutive pieces of text exactly one whitespace string is placed: the most preferred of all requests made at that spot, and none inside the outer edges. "
 "Spacing set on an element overrides its class default at that place only, unsetting restores the default, and copies of an element carry its own spacing and contents, so that a copy writes the same text as the original.",
 ["inputs", "histories"], "all element trees and all assignments of spacing before, after, between and inside elements",
 "tests compare the output of a few hand-built documents; arbitrary combinations of adjacent spacing requests are not covered.",
 [D+"element.py", D+"util.py"],
 [("Element.points / concat / _SpaceProperty", D+"element.py"), ("collapse_whitespace, combine_text", D+"util.py")],
 ["Element.write", "Element.space_before etc."])

prop("P08", "Writing a modified tree back edits exactly the changed text",
 "An element tree read from a complete text document (all blocks closed) and not modified produces no edits, and after modifying heads, tails, or adding, removing or replacing elements, the edits written back change the document into a text that reads as a tree equal to the modified one. "
 "The edits are in document order, do not overlap, and leave text belonging to unmodified elements, comments and unknown material untouched; the number of reported changes equals the number of edits applied.",
 ["histories", "inputs"], "all documents and all sequences of element modifications between reading and writing back",
 "tests/test_dom.py and test_dom_edit.py make two or three fixed modifications.",
 [D+"element.py", D+"edit.py", D+"base.py"],
 [("Element.edits / Element.edit", D+"element.py"), ("HeadOrigin/TailOrigin, modified flags", D+"element.py")],
 ["Element.edits", "Document.text()"])

prop("P09", "Indented output differs from plain output in leading whitespace only",
 "Writing an element tree with indenting yields the same sequence of lines as writing it without, apart from the whitespace at line beginnings and trailing it. "
 "The indent of a line depends only on the block structure open at the start of that line: every block that is opened on a line and not closed on it indents the following lines by one more level, or aligns them with the child of the block the element type prefers if that is on the same line and not too far to the right; a line that starts with the closing of blocks is indented as the contents around the outermost of these, and after all blocks are closed the start indent is in effect again. Taking newlines over from the original text gives every element that was on a new line a new line, with the same number of blank lines up to the maximum.",
 ["inputs"], "all element trees with block structure and all indent settings",
 "tests/test_indent.py checks fixed documents only.",
 [D+"indent.py", D+"element.py"],
 [("Indenter stack", D+"indent.py")],
 ["Element.write_indented"])

prop("P10", "Pitch names and pitches convert both ways in every language",
 "For every note name of every supported language the pitch read from it is the pitch the language defines, and writing that pitch in the same language with the same writing preferences yields a name that reads back as the same pitch; octave marks and octave numbers convert both ways without loss. "
 "Naming a pitch a language cannot express, or reading a name it does not know, fails with a KeyError instead of producing another pitch. "
 "The preferred style among several names of one pitch is honoured, an existing name of the same pitch is kept, and the style and the language can be found back from the names used. "
 "In a document every note is read in the language of the last valid language command or language include before it; reading with that language and writing with another renames every note without changing its pitch.",
 ["inputs", "programs"], "all languages, all note names, all alterations in quarter steps, all octaves, all documents with language commands anywhere",
 "tests/test_pitch.py samples a few names and two documents.",
 [Q+"pitch.py"],
 [("pitch name tables, PitchProcessor.read_node/write_node/to_string", Q+"pitch.py"), ("find_language/follow_language", Q+"pitch.py")],
 ["PitchProcessor.pitch", "PitchProcessor.to_string"])

prop("P11", "Converting between relative and absolute keeps every sounding pitch",
 "Converting music from relative to absolute notation, and from absolute to relative notation, leaves the sounding pitch of every note in the document unchanged and in the same order, for notes in chords, nested music, repeats and every combination of the two notations. "
 "After the conversion no relative (respectively absolute, where convertible) music is left in the selected part: a music list with notes in it becomes relative as a whole, chord mode music is transparent to the relative command around it, and music in markup, in a fixed or transpose command is not part of the relative music around it. Music outside the selected part is not touched, and everything that is not an octave stays the same. "
 "Converting one way and back yields music with the same sounding pitches.",
 ["programs", "inputs"], "all music documents with absolute, relative and fixed sections, nested lists, chords, octave checks and any start-pitch option, and all selections",
 "tests/test_pitch.py converts fourteen short fixed snippets.",
 [Q+"relative.py", Q+"pitch.py"],
 [("Rel2abs / Abs2rel", Q+"relative.py"), ("Pitch.make_relative/make_absolute", Q+"pitch.py")],
 ["text written back"])

prop("P12", "Transposing moves every pitch by exactly the given interval",
 "Transposing music from one pitch to another moves every sounding pitch by exactly that interval: the note step moves by the interval's number of steps, the alteration by what makes the semitone distance exact, and the octave accordingly, in absolute, relative and fixed-octave notation alike; a note that would need more than two sharps or flats is respelled to the next step with the same sound; everything that is not a pitch stays the same, and with a selection only the selected notes sound differently. "
 "Key signatures move along, and pitches that denote something other than sounding notes (the arguments of tuning and transposition commands, octave-less note names) are treated as documented. "
 "Transpositions add and invert like intervals: transposing by the sum of two intervals equals transposing twice, and transposing back restores the original (as far as no note was respelled).",
 ["programs", "inputs"], "all intervals, all pitches, all music documents mixing absolute, relative, fixed, chord-mode and transposed sections, all selections",
 "tests transpose two or three snippets; no test covers the interval algebra or mixed contexts.",
 [Q+"transpose.py"],
 [("Transposer.transpose", Q+"transpose.py"), ("Transpose.edit_range", Q+"transpose.py")],
 ["Transposer.transpose", "text written back"])

prop("P13", "Rhythm edits change durations only as asked, never the meaning",
 "Making durations explicit, implicit, or implicit except at line starts never changes the duration of any note, rest or chord in the document; removing durations or scalings removes exactly those; transforming changes every written duration by exactly the given log, dots and scaling change. "
 "Copying the rhythm yields the list of durations in order, and pasting a list of durations gives the notes exactly those durations in order, repeating the list when it is shorter. "
 "All of them leave pitches, articulations and everything that is not a duration unchanged and touch nothing outside the selection.",
 ["programs", "inputs"], "all music documents with omitted and explicit durations, unpitched notes, commands with durations, skips, scalings, line breaks, comments, and all selections",
 "tests/test_rhythm.py runs about two dozen fixed snippets.",
 [Q+"rhythm.py"],
 [("EditRhythm.previous_durations, may_remove", Q+"rhythm.py"), ("Rhythm* classes", Q+"rhythm.py")],
 ["text written back", "copied rhythm list"])

prop("P14", "Duration values convert and shift exactly",
 "Converting between a duration's written form, its log-and-dots form, and its fraction of a whole note is exact in every direction, for every supported base value, every practical number of dots (up to 45) and every scaling; values that are not expressible are rounded down or rejected as documented. "
 "Shifting durations by logs and dots, and transformations of duration and scaling, compose by addition and invert by negation, and always produce the exact fraction.",
 ["inputs"], "all logs from maxima to very short notes, all dot counts, all rational scalings, all transforms",
 "tests/test_duration.py checks about ten values.",
 [Q+"duration.py"],
 [("duration, log_dotcount, shift_duration, to_string, from_string, Transform", Q+"duration.py")],
 ["duration functions"])

prop("P15", "Computed musical lengths and positions follow LilyPond's time rules",
 "The computed length of any music is the sum of its parts for sequential music, the maximum for simultaneous music, zero for grace music, scaled by all enclosing tuplet and scale commands, with a repeat taking the time of its music once as written, followed by its alternatives, and with omitted durations taken from the preceding note. "
 "The position of a node is the total length of what precedes it in time, and position plus length of consecutive parts agree; the length of a selection is the sum of what it contains. "
 "A given duration transformation is applied uniformly to all of these.",
 ["programs"], "all music expressions nesting sequential, simultaneous, tuplet, scaled, repeated, grace and referenced music, all nodes, all selections",
 "tests/test_time.py computes about a dozen values on fixed snippets.",
 [Q+"time.py", D+"lily.py"],
 [("Time.length/position/duration", Q+"time.py"), ("Music.time_length, time_scale, properties()", D+"lily.py")],
 ["Time.length", "Time.position", "Time.duration"])

prop("P16", "Variable and include lookup finds the value in force at that place",
 "Looking up a variable from any place in a document finds the last assignment that precedes that place, in the document itself or in the files included before that place or in the including document before the include, following references to other variables transitively. "
 "Lookup always terminates, also when files include each other or variables refer to themselves, and when there is no assignment or the included file is missing, it reports the absence instead of failing. "
 "Included files are looked for in the folder of the including file (unless that is disabled), in the folder of the first file, and in the include path, in that order; a file that is already being included does not count. The length of music and the mode of a key that refer to variables follow from the values found.",
 ["programs", "configurations"], "all document sets with assignments, references and includes in any order, including cyclic ones and missing files, all places of lookup",
 "tests/test_dom_util.py does one include with one variable.",
 [D+"lily.py", D+"scope.py"],
 [("Reference.get_value / get_value_with_scope, find_assignment", D+"lily.py"), ("Scope", D+"scope.py")],
 ["get_value", "find_assignment", "Scope.find_file"])

prop("P17", "MIDI keys, key signatures and pitches correspond exactly",
 "Converting a pitch to its MIDI key number gives the equal-tempered key for that step, alteration and octave, and converting a key number to a pitch always yields a pitch with that same key number. "
 "For every key signature the number and order of accidentals, the scale notes and the preferred spelling of each chromatic note follow from the circle of fifths: the seven scale degrees are spelled with seven different letters in order, and every pitch converted in the context of a key keeps its key number. "
 "Equal keys give equal results regardless of how they were specified.",
 ["inputs"], "all pitches, all MIDI key numbers, all keys and modes",
 "tests/test_key.py checks a few keys and notes.",
 [Q+"key.py", Q+"pitch.py"],
 [("MidiPitchReader, KeySignature, chromatic_scale, accidentals", Q+"key.py")],
 ["key functions"])

prop("P18", "Number naming is a bijection in every notation",
 "Converting a positive number to roman numerals, to letters or to English words and back yields the same number, different numbers give different text, and every produced text is the standard form of that number. "
 "Text that is no number in the notation yields zero or is rejected, as documented, and out-of-range numbers are rejected or handled as documented.",
 ["inputs"], "all non-negative integers in the documented ranges",
 "tests/test_numbering.py checks a dozen numbers.",
 [Q+"numbering.py"],
 [("int2roman/roman2int, int2letter/letter2int, int2text", Q+"numbering.py")],
 ["numbering functions"])

prop("P19", "Reading, writing and re-reading a document preserves its content",
 "Reading any valid LilyPond text, also with embedded Scheme, markup and lyrics, or embedded in HTML or LaTeX, into a tree and writing it out yields text that reads as an equal tree, and writing that again yields the same text. "
 "The tokens of the written text are those of the original text in order, apart from whitespace and equivalent forms; nothing is dropped or invented. "
 "The value of every literal (strings, numbers, Scheme data) read from the text is the value the text denotes, and setting such a value and writing it reads back as the same value.",
 ["programs", "inputs"], "all valid documents in the supported languages, all literal values",
 "tests/test_dom.py and test_scheme.py check fixed documents of a few lines.",
 [D+"read.py", Q+"lang/lilypond.py", Q+"lang/scheme.py", Q+"lang/html.py", Q+"lang/latex.py", D+"lily.py", D+"scm.py"],
 [("LilyPondTransform etc.", Q+"lang/*.py"), ("read_head/write_head pairs", D+"element.py, "+D+"lily.py, "+D+"scm.py")],
 ["read.lily_document(...).write()"])

prop("P20", "Named settings in a document behave as one ordered map",
 "Setting, reading, listing and unsetting named variables of a document, header, paper or context block behave as operations on one ordered map: reading returns what was last set, setting an existing name changes its value in place, a new name is added at the end, and unsetting removes exactly that name. When a text gives a name more than once, the last one is in force. "
 "All other content of the block, including comments and other variables, remains the same, and the written text reads back with the same names and values.",
 ["histories"], "all blocks, all sequences of set, get, unset and list operations, all names and values",
 "tests check a single assignment and retrieval.",
 [D+"lily.py"],
 [("variables mixin set_variable/get_variable/unset_variable/variables", D+"lily.py")],
 ["get_variable", "set_variable", "unset_variable", "variables"])

prop("P21", "Spanners are matched to their own counterpart",
 "For a spanner start (slur, phrasing slur, beam, ligature, text spanner, trill spanner or melisma) the counterpart found is the first following end of the same kind with the same spanner id, in the same context, assignment or score; for an end it is the nearest preceding matching start; a lone start or end has none. Directions, tweaks and comments with the spanner do not matter. "
 "Where starts and ends of the same kind and id alternate properly, the counterpart of the counterpart is the element one started with. When the search is limited to a number of elements, either the counterpart is found or nothing. ",
 ["programs"], "all music with any interleaving of spanner starts and ends of all kinds and identities",
 "no existing test looks for spanner counterparts beyond single pairs.",
 [D+"lily.py"],
 [("find_parallel and spanner id matching", D+"lily.py")],
 ["find_parallel"])

prop("P22", "Finding elements by text position agrees with the text",
 "For a tree read from a document, the element found at a text position is the one whose text span contains it, the element found left or right of a position is the nearest one ending before or starting after that position, and selecting a part of the text yields a range with exactly the elements whose own text lies within the selection: a selection without any element is empty, and selecting all text selects all elements. "
 "Every element's recorded start and end equal the place where its text is in the document, children lie within their parent and in order without overlap.",
 ["inputs"], "all documents, all positions and all selections",
 "tests use one or two positions in fixed documents.",
 [D+"element.py", D+"edit.py"],
 [("find_child/find_descendant(_left/_right)", D+"element.py"), ("Element.pos/end", D+"element.py"), ("Edit.range_from_cursor", D+"edit.py")],
 ["Element.pos", "Element.end", "find_descendant"])

prop("P23", "A document edited step by step reads like one read from scratch",
 "After any sequence of text edits, the element tree a document yields equals, element for element with heads, tails and text positions, the tree obtained by reading its current text from scratch. "
 "Reading never fails: every text, also an incomplete or erroneous one while it is being typed, yields a tree or no tree, but no exception, and asking for the tree twice yields the same tree.",
 ["histories", "programs"], "all texts and all sequences of insertions, deletions and replacements with the tree asked for after any subset of them",
 "the tests read complete documents once; the tree builder reuses parts of the previous tree after an edit, which no test does.",
 [Q+"lang/lilypond.py", Q+"lang/scheme.py", D+"element.py", D+"base.py"],
 [("transforms keep the nodes of unchanged contexts and hand them to their parent again", Q+"lang/lilypond.py"), ("MusicBuilder", Q+"lang/lilypond.py")],
 ["document.get_transform(True)"])

prop("P24", "Music is read into the structure LilyPond gives it",
 "When LilyPond music is read, a duration belongs to the note, rest, chord or skip before it or is a note of its own, post events (articulations, fingerings, dynamics, slurs, beams, ties, spanners, with or without direction) belong to the music before them in their written order, tags and tweaks to the post event or music after them, and every command gets exactly the arguments its syntax asks for: relative, fixed, transpose, key, repeat, alternative, tuplet, grace and the context, property and value commands. "
 "Comments stay at their place in the text, name = value becomes an assignment, and no token is dropped, invented or moved to another place.",
 ["programs"], "all sequences of notes, durations, post events, comments, commands with their arguments and nested blocks",
 "the tests read a handful of complete snippets and compare their output; which element each part belongs to is hardly looked at.",
 [Q+"lang/lilypond.py", D+"element.py", D+"lily.py"],
 [("MusicBuilder", Q+"lang/lilypond.py"), ("build_tree, signatures()", D+"element.py, "+D+"lily.py"), ("handle_assignments", Q+"lang/lilypond.py")],
 ["read.lily_document tree"])

if __name__ == "__main__":
    import sys
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
