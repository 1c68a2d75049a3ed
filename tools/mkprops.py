#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Opening and saving an untouched document loses nothing',
 'Opening a .sif or .sifz document and saving it, to the same or another name and in either format, yields a document with exactly the same elements, in the same order, with the same attributes and the same text. Opening or reading never changes the file on disk, and content that the library does not understand (unimplemented parameters, unknown elements and attributes) is carried through unchanged.',
 ['inputs','histories'], 'every well-formed Synfig document (any text, escapes, non-ASCII, nesting, unknown content), every chain of open/save/open across the two formats',
 'Tests save two sample files once or twice and compare with whitespace and ordering of attributes normalised away; escapes, non-ASCII text, unknown content and longer chains are not reached.',
 ['sangfroid/format.py','sangfroid/animation.py','sangfroid/field.py'],
 [('magic number dispatch','sangfroid/format.py Format.from_filename'),('serialisation','sangfroid/format.py Format._write_to_file, Sif.save, Sifz.save')],
 [('document tree','the XML tree every object is a view of','Animation.tag')],
 ['bytes of the saved file','Animation.tag'])

prop('C02', 'Save and save-as write the right file in the right format, or change nothing',
 'Saving under a name writes exactly that file, in the format its extension calls for, and makes it the file that a later plain save writes; a plain save writes the last such file (or the one opened) and no other, and a never-named animation refuses it with ValueError. An open or a save that fails (unknown or unsupported extension or content, empty or missing file, unwritable target) raises, creates or alters no file that already held a document, and leaves the animation exactly as it was, still tied to its previous file.',
 ['histories','fault_sequences'], 'every sequence of new/open/edit/save/save-as over several animations and files, with any mixture of failing calls',
 'Tests do one save per animation; rebinding, failure after which the animation is used again, and several animations sharing files are never combined.',
 ['sangfroid/animation.py','sangfroid/format.py'],
 [('binding of animation to file','sangfroid/animation.py Animation.save, Animation.__init__'),('format choice','sangfroid/format.py Format.from_filename')],
 [('bound file','where a plain save goes','Animation._format')],
 ['files on disk','exceptions','later saves'])

prop('C03', 'What you edited is what a reopened document contains',
 'After any sequence of edits through the public interface, saving and reopening gives a document that reads the same as the one in memory: the same layers in the same order with the same attributes, the same parameter values, the same timelines and the same header. This holds for any text (of characters that XML allows) put in a name, description or text parameter, and for either file format.',
 ['histories','inputs'], 'every history of edits to layers, parameters, timelines and header, and every value of each kind',
 'Tests check edited objects in memory; the one edited document they save and reload has a single colour changed.',
 ['sangfroid/format.py','sangfroid/animation.py','sangfroid/value/','sangfroid/layer/layer.py','sangfroid/field.py'],
 [('every object is a view of the tree','sangfroid/field.py, sangfroid/value/'),('serialisation','sangfroid/format.py')],
 [('document tree','single source of truth','Animation.tag')],
 ['public reads before the save and after reopening'])

prop('C04', 'An edit changes its target and nothing else; reading changes nothing',
 'Setting a parameter, attribute, timeline, or header item, or adding a layer, changes only that item of that object: no other parameter, layer, or open document changes, including nested layers that have a parameter of the same name, and including the object a value was copied from. Reading, searching, comparing and printing never change any document.',
 ['histories','inputs'], 'every document, every target within it, every kind of edit and every kind of read, with values shared between several targets',
 'Tests look only at the item they have just changed; nothing compares the rest of the document before and after.',
 ['sangfroid/field.py','sangfroid/layer/layer.py','sangfroid/layer/group.py','sangfroid/value/transformation.py','sangfroid/value/value.py'],
 [('parameter lookup','sangfroid/field.py ParamTagField, sangfroid/layer/layer.py Layer.__getitem__/__setitem__'),('copying of values','sangfroid/value/value.py Waypoint.tag')],
 [('document tree','single source of truth','Animation.tag')],
 ['whole-document comparison around each call'])

prop('C05', 'A parameter reads back what was assigned to it, by every route',
 'For every parameter kind (real, integer, boolean, angle, time, colour, vector, string, gradient, blend method, transformation and its parts) an assigned value is what the layer then reports, whether it is assigned or read as an attribute, by subscript, through the value object or through a shortcut, and whether the parameter was static or animated before. The new value is static and keeps the precision the format documents (ten decimals for reals and vectors, six for colours), and the blend methods which the library has names for are those which Synfig means by their numbers. The same goes for the text a text layer is made with, and for the description, version, activeness and exclusion of a layer, whether or not it is in a document at the time.',
 ['inputs','histories'], 'every value of each parameter kind, every route of writing and reading, every earlier state of the parameter',
 'Tests assign one colour, one string, one boolean; vectors, shortcuts, transformations, blend methods, animated targets and value-object arguments are not assigned anywhere.',
 ['sangfroid/field.py','sangfroid/value/simple.py','sangfroid/value/vector.py','sangfroid/value/string.py','sangfroid/value/color.py','sangfroid/value/transformation.py','sangfroid/value/blendmethod.py','sangfroid/layer/layer.py'],
 [('typed setters and getters','sangfroid/value/*.py value property'),('routes','sangfroid/field.py ParamTagField, ShortcutField; Layer.__setitem__')],
 [], ['public reads after each assignment','the value element in the tree'])

prop('C06', 'A rejected operation leaves every document unchanged',
 'When a call raises because its argument is not acceptable (a value of the wrong kind, a malformed colour, gradient, vector, time, interpolation or transformation, a waypoint that clashes or has the wrong type, a missing time, index or name, something that is not a layer, a layer placed inside itself) the document and the objects involved are exactly as they were before the call. Such arguments are rejected rather than written into a parameter, timeline or group.',
 ['inputs','histories'], 'every public mutator, every invalid argument, in every document state',
 'Tests assert that some calls raise but do not look at the document afterwards.',
 ['sangfroid/value/','sangfroid/layer/','sangfroid/field.py'],
 [('validation before mutation','value setters, Timeline.add/__setitem__/__delitem__, Group.append/insert, Layer.__setitem__')],
 [], ['whole-document comparison around each failing call'])

prop('C07', 'A timeline is a map from times to waypoints, kept in time order',
 'After any sequence of setting, deleting, adding (with or without overwriting) and replacing waypoints, a timeline holds exactly the waypoints a time-keyed map would hold: one per instant, in time order both in the document and when iterated, with length, lookup, keys, values and items agreeing. A time may be given as a number of frames, a negative number counting from the end, text or a time object, with the same effect in setting, reading and deleting; adding without overwriting refuses clashes, and a missing time raises KeyError.',
 ['histories','inputs'], 'every sequence of timeline operations on values of every kind, attached to a document or not, with every way of writing a time',
 'Tests run a few fixed sequences on colours and angles with non-negative times; lookups by text, negative times, overwriting combined with deletion and re-adding, and detached values are not explored.',
 ['sangfroid/value/value.py'],
 [('Timeline operations','sangfroid/value/value.py Timeline'),('ordering and storage','Value._set_waypoints, Value._waypoints')],
 [('waypoint list','<waypoint> children of the <animated> element','Value.tag')],
 ['timeline reads','waypoint elements in the tree'])

prop('C08', 'Switching animation on and off preserves the value',
 'A value is animated exactly when it has waypoints: turning animation on keeps the static value as a single waypoint at the start, turning it off keeps the value of the earliest waypoint, and repeating either changes nothing. The first waypoint makes a static value animated, removing the last waypoint leaves a static value equal to that waypoint, and none of this loses precision or depends on whether the value belongs to a document.',
 ['histories','inputs'], 'every kind of value, every sequence of on/off/assign/add/remove, attached or detached',
 'Tests toggle one vector and one angle once and compare printed text.',
 ['sangfroid/value/value.py'],
 [('switching','sangfroid/value/value.py Value._set_animated, Value._set_waypoints')],
 [('is_animated','whether the element is <animated>','Value.is_animated')],
 ['Value.is_animated, value, timeline','the value element in the tree'])

prop('C09', 'A waypoint keeps its own time, value and interpolations',
 'A waypoint stored in a timeline reports the time, value and before/after interpolations it was given, with the alternative names mapped to their standard ones and clamped as the default; unknown or undefined interpolations are refused. Storing one waypoint or value in several timelines, or changing the objects after storing them, never alters what is stored.',
 ['inputs','histories'], 'every value kind, every pair of interpolations, every history of re-using and changing waypoint and value objects',
 'Tests read three loaded waypoints and construct waypoints outside any document; storage of interpolations and re-use of objects are not checked.',
 ['sangfroid/value/value.py'],
 [('waypoint construction and storage','sangfroid/value/value.py Waypoint.tag, Waypoint.from_tag, _check_interpolation_type')],
 [], ['timeline reads','waypoint elements in the tree'])

prop('C10', 'Layer order, membership and parentage stay consistent under edits',
 'Appending puts a layer last among the children of its group and inserting puts it immediately before the child that had that index, negative indices counting from the end; other layers keep their order, a layer already elsewhere is moved, and no layer is ever duplicated, lost, altered, or put inside itself. Iteration, indexing, length and parent (None at the top level) agree, the file lists children in reverse, and header items of an animation stay before its layers.',
 ['histories','configurations'], 'every sequence of creating, appending, inserting and moving layers among nested groups, detached groups and animations',
 'Tests append or insert one or two fresh layers in one document; moving, nesting, re-appending and length of nested groups are not exercised.',
 ['sangfroid/layer/group.py','sangfroid/layer/layer.py','sangfroid/value/canvas.py'],
 [('append, insert, children','sangfroid/layer/group.py Group'),('parent','sangfroid/layer/layer.py Layer.parent'),('canvas assignment','sangfroid/value/canvas.py Canvas.value')],
 [('children','layer elements of the canvas, reversed','Group.canvas_tag')],
 ['children, indexing, len, parent','layer elements in the tree'])

prop('C11', 'Search returns exactly the matching layers, in file order',
 'Searching from any layer returns exactly the layers below it that satisfy all the given criteria, each once and in file order; a non-recursive search considers only its immediate children. A type may be given as a name in any case and with any underscores or as a class, other criteria compare the named attribute or parameter, a layer without it does not match, True, False and callables select as stated, and the single-result form gives the first match or None.',
 ['inputs','configurations'], 'every layer tree and every query',
 'Tests try a handful of queries on two documents, all on types without underscores and from the root.',
 ['sangfroid/layer/layer.py','sangfroid/layer/group.py','sangfroid/registry.py'],
 [('find, find_all','sangfroid/layer/layer.py Layer.find_all, Layer.find'),('name normalisation','sangfroid/util.py')],
 [], ['results of find and find_all'])

prop('C12', 'A time specification denotes the right instant or is refused',
 'A time given as text in hours, minutes, seconds and frames (any combination, order and spacing, fractions allowed, a leading minus negating the whole) or as a number denotes that many frames (to a millionth) at the frame rate of its document, negative numbers counting back from the end of the animation. Text that is not a time, a repeated unit, a negative frame part beside seconds, and anything needing a frame rate or duration that is not available are refused with ValueError; frame count, seconds, integer and float views agree.',
 ['inputs','configurations'], 'every time specification, every frame rate, every begin and end time',
 'Tests check a table of about sixty specifications, nearly all at 24 frames per second, and several rows of that table are never enforced.',
 ['sangfroid/t.py'],
 [('parsing','sangfroid/t.py T.__init__, T._parse_time_spec, _canvas_root')],
 [], ['T.frames, T.seconds, int, float, exceptions'])

prop('C13', 'Times are ordered and hashed consistently',
 'Times compare as their frame counts compare, with each other and with numbers, so that exactly one of less, equal and greater holds and the derived comparisons agree; equal times have equal hashes, whether or not each knows its frame rate. Comparing non-zero times of different frame rates raises ValueError.',
 ['inputs'], 'every pair and triple of times and numbers, with the same, different or unknown frame rates',
 'Tests compare a time with its immediate neighbours at one frame rate.',
 ['sangfroid/t.py'],
 [('comparison and hash','sangfroid/t.py T._compare, T.__hash__')],
 [], ['comparison operators, hash, dict and set behaviour'])

prop('C14', 'The text of a time denotes the same time',
 'Printing a time and reading the text back at the same frame rate gives the same instant, for positive and negative times, whole and fractional frames, from less than a frame to many hours, with and without a known frame rate. The text is the usual one: each of hours, minutes, seconds and frames at most once, largest first, whole numbers except for the frames, no zero parts.',
 ['inputs'], 'every time (to a millionth of a frame) and every frame rate',
 'Tests check the text of about forty times at 24 frames per second and never read it back; negative times beyond a minute are not reached.',
 ['sangfroid/t.py'],
 [('printing','sangfroid/t.py T.__str__')],
 [], ['str(T), T(str(T))'])

prop('C15', 'Every layer type builds, saves and reloads as itself with its defaults',
 'Each supported layer type can be created from nothing (apart from those marked as not implementable), and then has exactly the parameters, of the kinds and with the default values, that the reference sample shows Synfig giving that type (apart from kinds not implemented yet); saved and reloaded it is again a layer of that same class with those values. Type names resolve without regard to case or underscores, unknown names are refused with KeyError, and creating one layer never affects another.',
 ['inputs','histories'], 'every layer type, every spelling of its name, every order of creating layers',
 'Tests instantiate most types without looking inside and compare the content of one (circle).',
 ['sangfroid/layer/','sangfroid/registry.py','sangfroid/util.py','sangfroid/field.py'],
 [('declared fields','sangfroid/layer/*.py'),('empty layer construction','sangfroid/layer/layer.py Layer._construct_empty_tag'),('registry','sangfroid/registry.py')],
 [], ['tag of a new layer, public reads, class after reload'])

prop('C16', 'Bywords shows each word at its time',
 'For every subtitle line whose words (ASCII letters and digits, ignoring case, punctuation and spacing) are those of a bywords group, each text layer of that group is empty until its first word is due and then shows ever longer prefixes of its text, one word (or letter) at a time, the first at the start of the line, later ones after pauses proportional to the number of characters of the words before, all within the span of the line, with constant interpolation. No word of a matched line is dropped, and lines that match nothing are reported and change nothing.',
 ['inputs','configurations'], 'every subtitle file, every set of groups and text layers, both modes, every frame rate',
 'Tests run one song and compare only the sequence of texts, never a time.',
 ['bywords/bywords.py','bywords/adjust.py'],
 [('matching and timing','bywords/bywords.py BywordsGroup.matches, Bywords'),('applying','bywords/adjust.py adjust')],
 [], ['text timelines of the animation after the adjustment'])

prop('C17', 'Bywords keeps everything else and can be run again',
 'Apart from the text parameter of the text layers in matched bywords groups, running bywords leaves the whole document as it was. Running it a second time, directly or after saving and reopening, with the same subtitles gives the same document.',
 ['inputs','histories'], 'every document, every subtitle file, both modes, repeated runs',
 'Tests never look outside the text timelines and run it once on a fresh document.',
 ['bywords/bywords.py','bywords/adjust.py','bywords/__main__.py'],
 [('applying','bywords/adjust.py adjust'),('command line','bywords/__main__.py main')],
 [], ['whole-document comparison before and after'])

prop('C18', 'Header items and keyframes read and write what the document says',
 'The width, height, resolutions, gammas, frame rate, view box, background, begin and end times, frame count, name, description and keyframes (time, name, activeness, in order) that an animation reports are those in its document, with the defaults where it says nothing (empty text for the name and description). Setting one of the settable ones changes that item in the document, so that times, frame count and later reads follow it, and changes nothing else.',
 ['inputs','histories'], 'every header content, every sequence of reads and writes',
 'Tests read the header of two samples where most items have their default values, and set only the frame rate.',
 ['sangfroid/animation.py','sangfroid/field.py','sangfroid/keyframe.py'],
 [('header fields','sangfroid/animation.py Animation'),('attribute fields','sangfroid/field.py TagAttrField, NamedChildField'),('keyframes','sangfroid/keyframe.py')],
 [], ['public reads','attributes of the root element'])

prop('C19', 'Rewriting generated code blocks touches only those blocks',
 'The block replacer puts the given text, indented like the block marker, in place of the body of each block that was named, by its marker or by the class it follows (the first unnamed block after a class), and leaves every other line of every file as it was, except that closing markers are aligned with opening ones; doing so twice is the same as doing so once (for texts without markers). Class lines inside a replaced body do not count, and given names for which there is no block can be reported. A file with badly nested or unnamed blocks is refused with ValueError and left as it was, and an interruption at any moment leaves each file either wholly old or wholly new.',
 ['inputs','crash_points','fault_sequences'], 'every source file, every set of blocks, an interruption or write failure at every point',
 'No test runs the replacer at all.',
 ['sangfroid/template/replacer.py'],
 [('block scanner','sangfroid/template/replacer.py Replacer.handle'),('write then rename','Replacer.write_to')],
 [], ['file contents after each run, after each injected failure'])

prop('C20', 'A gradient is a position-keyed map of at least two colours',
 'A gradient holds exactly the colour stops it was given, one per position and in order of position, whether given as a whole, copied from another gradient or changed stop by stop; length, lookup, keys, values, items and iteration agree with the document. Anything with fewer than two stops or a stop that is not a colour is refused.',
 ['inputs','histories'], 'every set of positions and colours, every sequence of assignments and stop changes',
 'Tests use two-stop gradients and change one existing stop.',
 ['sangfroid/value/gradient.py','sangfroid/value/color.py'],
 [('gradient map','sangfroid/value/gradient.py Gradient')],
 [], ['gradient reads','colour elements in the tree'])

prop('C21', 'All notations for a colour agree',
 'A colour written as six or eight hex digits (with or without #, in either case), as three or four components between 0 and 1, or as another colour denotes the same colour, with full opacity where no alpha is given; components keep six decimals, every hex colour reads back as the same hex digits, and equality agrees across notations. Anything else is refused with ValueError.',
 ['inputs'], 'every hex colour, every component tuple, every pair of notations',
 'Tests compare four notations of one colour.',
 ['sangfroid/value/color.py'],
 [('notations','sangfroid/value/color.py Color')],
 [], ['Color.value, as_tuple, equality'])

prop('C22', 'Values are equal exactly when they denote the same thing',
 "Two values of the same kind, or a value and a plain Python value in the notation of that kind (number, true or false, text, time, tuple or list of coordinates, colour notation, dict of stops, dict of the parts of a transformation), are equal if and only if they denote the same thing (numbers up to a ten-thousandth); order, length, alpha, position and every part count. A value which is animated never equals a constant or a value with a different timeline, and equals its own copy. Nothing else (None, text that isn't in the notation, tuples or dicts of the wrong shape) equals a value. Comparing never fails, != is always the opposite of ==, and values of one kind compare the same from either side. Timelines, and waypoints, at different times are not equal, and waypoints are ordered by time.",
 ['inputs','histories'], 'every kind of value, static or animated, every notation, every history of changes',
 'Tests compare a few values with a constant that they are equal to.',
 ['sangfroid/value/value.py','sangfroid/value/simple.py','sangfroid/value/vector.py','sangfroid/value/color.py','sangfroid/value/gradient.py','sangfroid/value/transformation.py'],
 [('equality','Value.__eq__, Simple.__eq__, Vector.__eq__, Color.__eq__, Composite.__eq__')],
 [], ['== and != in both directions'])

prop('C23', 'A layer is a mapping of its parameters, a value a collection of its parts',
 "The keys, values and items of a layer are exactly its own parameters, each once and in the order of the document, whatever is inside it. A name is `in` a layer exactly when it can be read by subscript, which gives the layer's own parameter or, if it has none of that name, the first in file order among the layers inside it; any other name raises KeyError in reading and in writing, and writing changes no other parameter and never adds one. Likewise a vector is a collection of its two coordinates and a transformation of its four parts: length, keys, values, items, iteration, attributes, get and subscript (for a vector also by position, negative positions counting from the end) agree, and a missing key or position raises. The Python expression which a value gives for itself, passed to its class, recreates the value (constants; times of less than a second). All this holds after any assignment, move of layers, or reload.",
 ['inputs','histories'], 'every tree of layers, every parameter name, every value, every history of assignments, moves and reloads',
 'Tests look up a few parameters of one layer in sample files.',
 ['sangfroid/layer/layer.py','sangfroid/value/vector.py','sangfroid/value/transformation.py','sangfroid/value/value.py','sangfroid/value/blendmethod.py'],
 [('layer as mapping','Layer.__getitem__, __setitem__, __contains__, keys, values, items'),('collections','Vector, Composite'),('expressions','Value.as_python_expression and its overrides')],
 [], ['mapping and sequence interfaces','as_python_expression'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p)+'\n')
print(len(P))
