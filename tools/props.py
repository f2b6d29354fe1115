"""The properties: one source for properties.jsonl, MANIFEST.json and the table in DESIGN.md."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))


SAVE = ["bytes written by pyflp.save", "Project.events"]

prop("C01", "Opening and saving an untouched project reproduces its file byte for byte",
     "For every well-formed project file, parsing it and saving the result without changing anything writes a file "
     "identical to the original: the same header, the same events in the same order, each with the same id, length "
     "prefix and payload. Ids the library has never heard of, and payloads it does not decode, are carried through "
     "unchanged.",
     ["inputs"], "all header values the format allows; all 256 event ids; all payload bytes; lengths across every "
     "length-prefix width; event sequences of several events",
     "the suite saves two recorded projects and compares only a few of their events",
     ["pyflp/__init__.py", "pyflp/_events.py"],
     [("event framing by id class", "pyflp/__init__.py parse(), pyflp/_events.py EventBase.__bytes__"),
      ("header and data chunk writer", "pyflp/__init__.py save()")], SAVE)
prop("C02", "Saving keeps every byte of structured events the library decodes",
     "When a project contains events the library decodes into fields (channel levels, parameters, envelopes, tracking, "
     "notes, controllers, playlists, tracks, mixer parameters, automation points and so on), parsing and saving it "
     "unchanged writes those events back exactly, whatever their field values. This includes fields with unknown "
     "meaning and the shorter forms written by older versions of FL Studio.",
     ["inputs"], "all field values (booleans stored as 0 or 1, track heights whole percents, a sample start or length of 0 stored "
     "as two zeros), every prefix of each "
     "layout that ends at a field, lists of 0..3 items, old and new playlist item sizes",
     "the recorded projects hold one or two field combinations of each event",
     ["pyflp/_adapters.py", "pyflp/_events.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py",
      "pyflp/arrangement.py", "pyflp/project.py", "pyflp/controller.py", "pyflp/timemarker.py"],
     [("construct layouts of structured events", "StructEventBase and ListEventBase subclasses"),
      ("value adapters", "pyflp/_adapters.py")], SAVE)
prop("C03", "Saving keeps every byte of plugin state, native and VST",
     "The stored state of every natively supported plugin and of every VST plugin survives parsing and saving "
     "byte for byte, whatever the parameter values, and for VST state whatever records it holds, in whatever order. "
     "State of plugins without dedicated support survives as well.",
     ["inputs"], "all parameter bytes of all native plugins at their known sizes; VST markers, records of all known "
     "kinds in varied order, unknown records, record lengths; unsupported plugins",
     "the suite has one preset per plugin", ["pyflp/plugin.py", "pyflp/_events.py"],
     [("plugin state layouts", "pyflp/plugin.py *Event.STRUCT"), ("VST record list", "pyflp/plugin.py VSTPluginEvent")],
     SAVE)
prop("C04", "Text survives in the encoding its version uses, when read, kept or set",
     "Text of a project is decoded as UTF-16 when its version is 11.5 or newer and as ASCII otherwise, except for the "
     "version itself, which always is ASCII; what is read never includes the terminator. Saving writes each text back in "
     "the encoding of its project with one terminator, both when it was left alone and when it was replaced by another "
     "text of any length.",
     ["inputs", "histories"], "all text events; all characters the encoding can hold, texts of 0..4 characters, versions "
     "on both sides of 11.5; replaced texts", "the suite reads fixed English names from one version",
     ["pyflp/_events.py", "pyflp/__init__.py"],
     [("choice of codec by version", "pyflp/__init__.py parse()"), ("terminators", "pyflp/_events.py StrEventBase")], SAVE)
prop("C05", "A file is accepted exactly when its header and sizes are valid",
     "Parsing refuses a file with a documented error when its header magic, header size, format, timebase, data magic or "
     "data size is wrong, when it is truncated, when an event of fixed size is cut short, or when text occurs before any version; it "
     "accepts every file for which all of them are right.",
     ["inputs"], "all values of all header fields alone and in pairs; every length below the header size; every "
     "fixed-size event cut short", "the suite tries four damaged files", ["pyflp/__init__.py", "pyflp/exceptions.py"],
     [("header validation", "pyflp/__init__.py parse()"), ("payload length checks", "pyflp/_events.py EventBase.__init__")],
     ["exception raised by pyflp.parse"])
prop("C06", "Every documented property reads exactly the stored bytes it stands for",
     "Each documented property of a project, channel, pattern, arrangement, track, time marker, note, controller, insert, "
     "slot, plugin or automation point returns the value that the documented bytes of its own event encode, with its "
     "documented type, for every value of those bytes. When the event is absent, or too short to hold the field, the "
     "property returns nothing or its documented default, and never the value of a neighbouring object or field.",
     ["inputs"], "about 430 properties; every value of the bytes they stand for; with and without the event; "
     "neighbouring objects holding the same kind of event with other values",
     "the suite reads one value per property from one recorded project, often a default",
     ["pyflp/_descriptors.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py",
      "pyflp/project.py", "pyflp/plugin.py", "pyflp/timemarker.py", "pyflp/controller.py"],
     [("property descriptors", "pyflp/_descriptors.py"), ("field layouts", "StructEventBase subclasses"),
      ("model to event scoping", "pyflp/_models.py")], ["public properties of models"])
prop("C07", "Assigning a property changes that value in the saved file and nothing else",
     "After a value is assigned to a writable property, reading the property returns that value, and the saved file "
     "differs from one saved without the assignment only in the bytes which stand for that property. Parsing the saved "
     "file again yields the assigned value and leaves every other property as it was.",
     ["inputs", "histories"], "about 430 writable properties; every value the stored bytes can hold; every old value; "
     "neighbouring fields and objects with arbitrary contents",
     "the suite has setter tests for a handful of properties and none looks at the rest of the file",
     ["pyflp/_descriptors.py", "pyflp/_events.py", "pyflp/_adapters.py", "pyflp/plugin.py", "pyflp/channel.py",
      "pyflp/mixer.py"],
     [("descriptor setters", "pyflp/_descriptors.py"), ("struct item assignment", "pyflp/_events.py StructEventBase")], SAVE)
prop("C08", "Switching one option on or off flips only its own bit",
     "Options stored as single bits (channel, layer, polyphony, envelope, insert, wrapper, note slide and VST options, "
     "including the inverted ones) read as the state of their bit, and assigning one of them leaves every other bit of the "
     "same word, and everything else in the file, as it was. Assigning the same value twice is the same as assigning it "
     "once.",
     ["inputs", "histories"], "all words, all options, both values, sequences of two assignments",
     "the suite reads options from one recorded word each and sets none", ["pyflp/_descriptors.py", "pyflp/plugin.py",
                                                                           "pyflp/pattern.py", "pyflp/mixer.py"],
     [("FlagProp", "pyflp/_descriptors.py"), ("_VSTFlagProp", "pyflp/plugin.py")], SAVE)
prop("C09", "Inserting and removing events keeps every view of the project consistent",
     "After any sequence of appending, inserting, removing and popping events through the event list of a project or of "
     "any of its parts, the project's list contains exactly the events it should, in order, the part's list is the matching "
     "subsequence of it, and the saved file is exactly the concatenation of those events. No operation loses, duplicates or "
     "reorders any other event, and counting, membership and lookup by id agree with the list.",
     ["histories", "inputs"], "sequences of up to 3 operations at every position, on the project and on a part of it, with "
     "events of equal and different content", "the suite tests two operations on a list of two events",
     ["pyflp/_events.py"], [("EventTree parent/child synchronisation", "pyflp/_events.py EventTree")],
     ["Project.events", "Model.events"] + SAVE[:1], [("IndexedEvent", "event with its position in the root", "pyflp/_events.py")])
prop("C10", "Length, iteration, indexing, slicing and lookup by name of collections agree",
     "For channels (all of them, and by kind: samplers, instruments, layers, automations), children of a layer, automation "
     "points, patterns, arrangements, mixer inserts and slots, as for notes, controllers, tracks and time markers, which can "
     "only be iterated over, the number of items equals the items iterated over, positional indices from 0 and slices (including negative bounds and steps) return the "
     "corresponding items in that order, and lookup by name, or by id where that is what the collection documents, returns "
     "exactly the items with that name or id. Anything which does not exist raises the documented error.",
     ["inputs", "configurations"], "projects with 0..4 items, all names and ids of those items, all indices and slice "
     "bounds around the length", "the suite indexes recorded collections with a few constants",
     ["pyflp/_models.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py"],
     [("supports_slice and ModelCollection", "pyflp/_models.py"), ("__getitem__/__iter__/__len__ of collections",
                                                                    "channel.py, mixer.py, pattern.py, arrangement.py")],
     ["ChannelRack", "Mixer", "Insert", "Patterns", "Arrangements", "Arrangement.tracks", "Layer", "Automation"])
prop("C11", "Every event belongs to the right channel, pattern, track, insert or slot",
     "However the events of a project's parts are interleaved in the ways FL Studio writes them, each channel, pattern, "
     "arrangement, track, time marker, insert and slot sees all of its own events and none of another's. Adding, removing or "
     "changing one part's events in a file never changes what the other parts read.",
     ["inputs", "configurations"], "2..3 parts of each kind, each part's optional events present or absent in every "
     "combination, ids in any order, patterns split over two places, plugins before and after",
     "the recorded projects have one fixed arrangement of events", ["pyflp/_events.py", "pyflp/channel.py",
                                                                    "pyflp/mixer.py", "pyflp/pattern.py",
                                                                    "pyflp/arrangement.py", "pyflp/project.py"],
     [("separate/divide/group/subtree", "pyflp/_events.py EventTree"), ("collection iterators", "channel.py, mixer.py, "
                                                                         "pattern.py, arrangement.py")],
     ["Model.events", "public properties"])
prop("C12", "Playlist items resolve to the right track, channel or pattern",
     "Every item of an arrangement's playlist appears on exactly the track its stored index designates, as a channel clip or "
     "a pattern clip according to its stored id, and refers to exactly the channel or pattern with that id. Positions, "
     "lengths, groups and offsets read what is stored, and assigning a channel, pattern or other value stores the "
     "matching id and changes nothing else.",
     ["inputs"], "1..3 items, all track indices, ids on both sides of the pattern base, all positions, lengths and offsets, "
     "both item sizes and both track counts", "the suite counts items of one recorded playlist",
     ["pyflp/arrangement.py"], [("Arrangement.tracks", "pyflp/arrangement.py"), ("PlaylistEvent", "pyflp/arrangement.py"),
                                 ("ChannelPLItem/PatternPLItem", "pyflp/arrangement.py")],
     ["Arrangement.tracks", "Track"] + SAVE[:1])
prop("C13", "Mixer parameters reach exactly the insert or slot they are addressed to",
     "Volume, panning, stereo separation, equaliser bands and route levels of an insert, and enabled and mix of a slot, are "
     "the values of the stored parameter addressed to that insert and slot, for every order and subset of stored "
     "parameters. Assigning one of them changes that one stored parameter only.",
     ["inputs"], "inserts and slots of small projects plus high insert numbers, all message values, parameters permuted or "
     "missing", "the suite reads one parameter set written in one order", ["pyflp/mixer.py"],
     [("MixerParamsEvent", "pyflp/mixer.py"), ("_MixerParamProp", "pyflp/mixer.py"), ("InsertEQ", "pyflp/mixer.py")],
     ["Insert", "Slot", "InsertEQBand"] + SAVE[:1])
prop("C14", "Rejected assignments raise and leave the project exactly as it was",
     "Assigning a value which the documentation forbids (a timebase or tempo outside the allowed values, a negative channel "
     "count, a note name or key which does not exist, a version without enough parts), or "
     "assigning to a property whose event or field is absent or which is read-only, raises an error. After that the project "
     "reads and saves exactly as before.",
     ["inputs", "histories"], "all values on both sides of each limit; all settable properties with an absent event or "
     "a too short one", "the suite tries one bad value for a few setters", ["pyflp/_descriptors.py", "pyflp/project.py",
                                                                          "pyflp/pattern.py", "pyflp/_events.py"],
     [("setter validation", "pyflp/project.py, pyflp/pattern.py"), ("PropertyCannotBeSet", "pyflp/_descriptors.py")], SAVE)
prop("C15", "Converted values survive being read and written back",
     "Tempos, note keys, musical times, logarithmic values, track heights, colours and other values shown in another unit "
     "than they are stored in are exact inverses: assigning a property the value it just returned leaves the file "
     "unchanged, and assigning any value the stored form can represent makes the property return that value, now and after "
     "saving and reopening.",
     ["inputs"], "every stored value of each converted property and every value its stored form represents (a sample start or length "
     "of 0 whose second stored number is not 0 is a known finding)",
     "the suite converts one constant of each kind", ["pyflp/_adapters.py", "pyflp/project.py", "pyflp/pattern.py",
                                                     "pyflp/types.py", "pyflp/_events.py"],
     [("adapters", "pyflp/_adapters.py"), ("tempo and key conversions", "project.py, pattern.py")], SAVE)
prop("C16", "A failed save leaves the destination file as it was",
     "If saving cannot succeed, because some value cannot be stored, the error is raised to the caller and the destination "
     "file keeps the contents it had, or stays absent if there was none. A successful save always replaces the whole "
     "file, leaving nothing of longer earlier contents behind.",
     ["inputs", "fault_sequences"], "a value out of range at any of the project's single-value events (fields of structured "
     "events are a known finding: they are dropped instead of refused); any earlier contents of the destination, shorter or "
     "longer", "the suite saves only valid projects to fresh files", ["pyflp/__init__.py"],
     [("serialise first, then write", "pyflp/__init__.py save()")], ["destination file after pyflp.save"])
prop("C17", "Looking at a project never changes it",
     "Reading any property of any object of a project, iterating, indexing, printing or comparing them, any number of times "
     "and in any order, changes neither what is read afterwards nor a single byte of the file saved afterwards. "
     "Reading the same property twice gives equal values.",
     ["inputs", "histories"], "every public property of every kind of object, with symbolic stored values",
     "the suite never saves after reading", ["pyflp/_descriptors.py", "pyflp/_models.py", "pyflp/plugin.py",
                                            "pyflp/project.py", "pyflp/channel.py", "pyflp/mixer.py"],
     [("side-effect free getters", "all models")], SAVE)
prop("C18", "Versions are read, written and ordered correctly, and limits follow them",
     "The version of a project is the number stored in it, part by part, and setting it stores the same number in every "
     "place the format keeps it. Versions are ordered by their parts, one with a build after the same one without. What "
     "depends on the version follows it for every version: the tempo may go up to 999 from 1.4.2 on but below 11 and "
     "to 522 otherwise, and may be fractional from 3.4.0 on; there are 500 tracks from 12.9.1 on and 199 before; text is "
     "UTF-16 from 11.5 on; and a version below one of those listed for the maximum number of inserts or slots gets the "
     "number listed for that one.",
     ["inputs"], "all major, minor, patch and build numbers of up to 2..4 digits; each limit on both sides of its version (for the "
     "inserts and slots, whose limits are upper estimates, the listed version itself may fall on either side)",
     "the suite knows one version", ["pyflp/project.py", "pyflp/types.py", "pyflp/arrangement.py", "pyflp/mixer.py"],
     [("FLVersion", "pyflp/types.py or project.py"), ("version setter", "pyflp/project.py")],
     ["Project.version", "Arrangements.max_tracks", "Mixer.max_inserts", "Mixer.max_slots"] + SAVE[:1])
prop("C19", "The licensee name decodes and encodes as exact inverses",
     "The licensee stored in a project decodes to the name FL Studio encoded, for every name of up to 74 letters and digits, and "
     "setting the licensee stores a text which decodes to that same name.",
     ["inputs"], "names of letters and digits of every length from 0 to 74, every one or two neighbouring characters of them arbitrary",
     "the suite decodes one name", ["pyflp/project.py"], [("licensee property", "pyflp/project.py")],
     ["Project.licensee"] + SAVE[:1])
prop("C20", "An event's size, equality and validity agree with its bytes",
     "For every event, its reported size equals the number of bytes it occupies in a saved file, before and after its value "
     "changes. Two events with equal bytes decoded the same way are equal, two which differ in their id or in any named "
     "value are not, unequal is the opposite of equal, and comparing an event with anything else raises TypeError. Making "
     "an event with an id or a payload size its kind does not allow raises an error.",
     ["inputs", "histories"], "all event kinds, payload lengths across length-prefix widths, all payload bytes (except NaN floats), replaced "
     "values, all ids and payload sizes for each kind", "the suite compares no events", ["pyflp/_events.py"], [("EventBase.size/__eq__", "pyflp/_events.py")],
     ["Project.events"])
prop("C21", "Derived properties combine stored values as documented",
     "Properties computed from several stored values follow their documentation for every stored value: tempo from its "
     "coarse and fine parts, creation time and time spent, time marker kind and position, reverb kind and mix, MIDI "
     "controller targets, current pattern and arrangement, loop positions, insert routes and docking, display names, "
     "comments, channel groups and the older volume and panning events that newer ones override. Assigning the "
     "writable ones stores the parts so that the same value is read back.",
     ["inputs"], "all stored values of each part, with parts present and absent", "the suite reads one value of each",
     ["pyflp/project.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/arrangement.py", "pyflp/controller.py",
      "pyflp/timemarker.py", "pyflp/pattern.py"],
     [("computed properties", "pyflp/*.py")], ["public properties"] + SAVE[:1])
prop("C22", "The plugin object of a channel or slot is chosen by its stored name",
     "The plugin of an instrument channel or mixer slot is an object of the class documented for its stored internal "
     "name, or a generic plugin object when no class is documented for that name, reading its own stored state and window "
     "and nobody else's. There is none when no state is stored, for a generator in a mixer slot or for an effect in a "
     "channel. Assigning a plugin stores its name, state and window and changes nothing else.",
     ["inputs", "configurations"], "all supported plugins in every position next to every kind of neighbour, unknown "
     "names, missing state", "the suite loads each plugin from its own preset file", ["pyflp/plugin.py", "pyflp/mixer.py",
                                                                                   "pyflp/channel.py", "pyflp/__init__.py"],
     [("PluginProp", "pyflp/plugin.py"), ("event dispatch", "pyflp/__init__.py parse()")], ["Slot.plugin", "Instrument.plugin"])
prop("C23", "Projects and their parts are equal exactly when they hold equal events",
     "Two projects, or two parts of the same kind taken from the same place of two projects (channels, patterns, "
     "arrangements, tracks, time markers, inserts, slots, and the settings below them), compare equal exactly when they "
     "hold equal events in the same order; reading the same part twice gives equal objects, two different parts of one "
     "project are never equal, and this stays so after assignments and after inserting and removing events. Unequal is the "
     "opposite of equal, and comparing a part with a part of another kind or with anything else raises TypeError.",
     ["inputs", "histories"], "any two payloads of every event behind a property; sequences of up to 2 events of 5 kinds (3 thorough); "
     "every pair of parts of a project with three of each kind", "the suite compares no projects or parts",
     ["pyflp/_models.py", "pyflp/_events.py"],
     [("EventModel.__eq__", "pyflp/_models.py"), ("EventTree.__eq__", "pyflp/_events.py")],
     ["== and != of Project and its parts"])
