#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


prop("C01", "An untouched project saves back byte for byte",
     "Parsing any well-formed file and saving the result without changing anything writes a file identical to the original, byte for byte: header fields, event order, event IDs, length prefixes and payloads, including the parts of a payload the library does not understand. Well-formed means: a valid header, minimal length prefixes, truth values inside structures stored as 0 or 1, structures that end at a field boundary, and text in the encoding of the file's FL version (ASCII before 11.5, UTF-16-LE from 11.5).",
     ["inputs", "configurations"],
     "every event ID 0-255, every payload length around the size of each known structure and around the length-prefix boundaries, every stored value of small fields, all orders of a bounded event alphabet, every file format, PPQ and channel count, old and new FL versions",
     "The suite never compares a saved file with its source; it only reads a few presets made by one FL version.",
     ["pyflp/__init__.py", "pyflp/_events.py", "pyflp/_adapters.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/arrangement.py", "pyflp/pattern.py", "pyflp/plugin.py", "pyflp/project.py", "pyflp/controller.py", "pyflp/timemarker.py"],
     [("parse / save", "pyflp/__init__.py"), ("EventBase.__bytes__ and the STRUCT of every event type", "pyflp/_events.py"), ("adapters (Log2, LogNormal, LinearMusical, height)", "pyflp/_adapters.py, pyflp/arrangement.py")],
     ["bytes of the file written by pyflp.save", "bytes(event)"])

prop("C02", "The parsed event list mirrors the file",
     "For any well-formed file, the parsed project exposes exactly the stored events, in file order, each with its stored ID and with the value its ID calls for: little-endian signed/unsigned integers, 0/1 booleans, 32-bit floats, colours, 16-bit pairs, raw bytes for unknown data. Text is decoded as ASCII when the file's FL version is below 11.5 and as UTF-16-LE from 11.5 on, the version text itself always as ASCII, with the terminator removed.",
     ["inputs", "configurations"],
     "all 256 event IDs, all values of 8- and 16-bit payloads, edge values of every byte lane of 32-bit payloads, text lengths across the length-prefix boundaries, versions on both sides of 11.5, every position of an event in a file",
     "Tests look at a handful of attributes of one 20.8.4 project; no old-version file and no unknown ID is ever parsed.",
     ["pyflp/__init__.py", "pyflp/_events.py"],
     [("event loop of parse()", "pyflp/__init__.py"), ("EventEnum, typed event classes", "pyflp/_events.py"), ("id -> type tables", "pyflp/*.py ...ID enums")],
     ["project.events", "event.id", "event.value"])

prop("C03", "Damaged files are refused, never half-read",
     "Parsing raises HeaderCorrupted when the file header is incomplete or has a wrong magic, header size, file format, PPQ, data-chunk magic or a data-chunk size that differs from the number of bytes that follow; it raises VersionNotDetected when text that depends on the FL version occurs before the version; and it raises some error when the last event is cut short. It accepts every valid format, PPQ and channel count, and never returns a project holding fewer or shorter events than the file declares.",
     ["inputs", "fault_sequences"],
     "every value of each header field (all 65536 formats and PPQs), every byte of the magics and sizes set to every value, every truncation point, every cut inside every kind of last event with the size field patched to match",
     "Tests have six corrupted files, one bad value per header field and none that is truncated.",
     ["pyflp/__init__.py", "pyflp/_events.py", "pyflp/exceptions.py"],
     [("header validation", "pyflp/__init__.py: parse"), ("payload size checks", "pyflp/_events.py: EventBase.__init__")],
     ["exception type raised by pyflp.parse", "returned project"])

prop("C04", "Reading changes nothing and projects do not affect each other",
     "Reading attributes, iterating, indexing, taking lengths, comparing or printing any part of a project never changes what saving it writes, and repeating a read gives an equal answer. Two projects parsed in one process, from the same or different files, of the same or different FL versions, never influence each other: neither reads of, writes to, nor failed parses of one change what the other reads or saves.",
     ["histories", "inputs"],
     "all histories of read operations up to a bound over every attribute of every model, and all interleavings of parse / read / write / save steps of two projects up to a bound",
     "Tests share one session-scoped project and never serialise it after reading, nor open two projects at once.",
     ["pyflp/_descriptors.py", "pyflp/_models.py", "pyflp/_events.py", "pyflp/__init__.py"],
     [("descriptors build views on demand", "pyflp/_descriptors.py"), ("per-parse local state (string type, plugin name)", "pyflp/__init__.py")],
     ["saved bytes before and after reads", "values of repeated reads"])

prop("C05", "Attributes report what the stored bytes say",
     "Every attribute of every model returns the value encoded in the documented place (event, byte offset, width, signedness, flag bit, adapter) of the event data, whatever the other bytes are. When the event is missing, or ends (at a field boundary) before the field, the attribute returns its documented default or None and the attributes that are present still read correctly.",
     ["inputs", "configurations"],
     "every scalar attribute x every stored value of 8/16-bit fields and flag bits, edge and byte-lane values of wider fields, on several backgrounds; every truncation of every structured event; every event absent",
     "Tests read each attribute once, from one preset, mostly at a default or extreme value, and never from an old (shorter) structure.",
     ["pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py", "pyflp/project.py", "pyflp/timemarker.py", "pyflp/controller.py", "pyflp/_descriptors.py"],
     [("STRUCT field layouts", "event classes"), ("EventProp, StructProp, FlagProp, NestedProp", "pyflp/_descriptors.py")],
     ["model attributes of a parsed project"])

prop("C06", "A successful write reads back and survives save and reload",
     "After assigning a valid value to a writable attribute, reading it - on the same object, on a freshly obtained object, and after saving and parsing the file again - gives the assigned value (for quantised attributes, the nearest storable value). The last of several writes wins.",
     ["histories", "inputs"],
     "every writable attribute x its value domain (complete for 8/16-bit fields and enumerations, edges for wider), from several starting values; all ordered pairs of writes within an event",
     "No test assigns an attribute and saves; only one setter is ever exercised.",
     ["pyflp/_descriptors.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py", "pyflp/project.py"],
     [("__set__ of the descriptors, property setters", "pyflp/_descriptors.py and models"), ("save", "pyflp/__init__.py")],
     ["attribute after write", "attribute after save + parse"])

prop("C07", "A write changes only what it names",
     "Assigning one attribute changes, in the saved file, only the bytes that encode that attribute (plus length prefixes and the data-chunk size when text changes length); every other byte of the file and every unrelated attribute of the same or any other channel, insert, slot, pattern, track, note or plugin stays as it was. This holds for every sequence of writes, independently of their order for unrelated attributes.",
     ["histories", "inputs"],
     "every writable attribute x values x backgrounds; all ordered pairs of writable attributes of the same model; all pairs of neighbouring sibling objects",
     "No test saves after a write, so cross-talk between fields, flags or siblings is invisible to them.",
     ["pyflp/_descriptors.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py", "pyflp/project.py", "pyflp/_models.py"],
     [("FlagProp read-modify-write", "pyflp/_descriptors.py"), ("ItemModel write-back", "pyflp/_models.py"), ("composite setters (reverb, delay mod, loop_pos, tempo, version)", "models")],
     ["byte diff of the saved file", "all other attributes"])

prop("C08", "A write takes effect or raises and changes nothing",
     "Assigning an attribute whose backing event or field is absent raises PropertyCannotBeSet (KeyError for the low-level echo-delay mod pair), assigning a read-only value attribute raises an error, and assigning a value outside a documented range raises the documented ValueError or TypeError (tempo, PPQ, channel count, version format, note key). After any such error, what saving writes and what every attribute reads are exactly as before.",
     ["inputs", "histories"],
     "every writable attribute with its event absent and at every truncation that removes its field; all out-of-range neighbours of every documented limit",
     "Tests exercise two error paths; none checks the project is unchanged afterwards.",
     ["pyflp/_descriptors.py", "pyflp/_events.py", "pyflp/project.py", "pyflp/pattern.py", "pyflp/channel.py", "pyflp/plugin.py", "pyflp/mixer.py", "pyflp/exceptions.py"],
     [("PropBase.__set__, StructEventBase.__setitem__", "pyflp/_descriptors.py, pyflp/_events.py"), ("range checks in setters", "pyflp/project.py, pyflp/pattern.py")],
     ["exception type", "saved bytes and attributes after the error"])

prop("C09", "Saving is exact, repeatable and all-or-nothing on bad data",
     "Saving writes a header with the project's format, channel count and PPQ, a data size equal to the number of event bytes, and then every event in order; saving again, or to another path, writes the same bytes, and the saved file parses back to equal events. If some event cannot be serialised, save raises and leaves an existing file at the target path untouched, and after the bad value is corrected saving works again. If the file system refuses the write at any point, save raises, the project is unaffected and a later save writes the complete file.",
     ["fault_sequences", "inputs", "histories"],
     "a serialisation fault at every event position of bounded files and a refused write at every byte position, with and without a pre-existing target; all sequences of save/modify/save up to a bound; all formats, PPQs and channel counts",
     "The suite saves once and only checks that it does not crash.",
     ["pyflp/__init__.py", "pyflp/_events.py", "pyflp/project.py"],
     [("save builds the whole buffer before opening the target", "pyflp/__init__.py: save")],
     ["file contents", "exceptions from pyflp.save"])

prop("C10", "Event views stay coherent under any edit sequence",
     "An event tree and the views derived from it behave like ordered lists sharing their events: after any sequence of insert, append, +=, pop and remove on any view, that view and all its ancestors contain exactly the events that result, in file order with no two at the same position; lookups (membership, count, first, get, ids, length, iteration) agree with that list, missing IDs raise KeyError, and an edit of one view never disturbs the relative order of events elsewhere. Deriving views (select, split, group, separate) partitions exactly the events asked for, in order; two trees are equal exactly when they hold equal events at equal positions.",
     ["histories"],
     "all operation sequences up to a bounded depth over a root and nested/sibling views with a bounded event alphabet with duplicate IDs",
     "Tests cover a handful of fixed calls on a tiny tree; sequences of edits are not tried.",
     ["pyflp/_events.py"],
     [("EventTree.insert/append/pop/_recursive, root index shifting", "pyflp/_events.py"), ("divide/group/separate/subtree/subtrees", "pyflp/_events.py")],
     ["EventTree public methods"],
     [("IndexedEvent.r", "position of an event in the root list", "pyflp/_events.py")])

prop("C11", "Channel events belong to exactly their channel",
     "Each channel of the rack owns exactly the channel and plugin events stored between its start and the next channel's start, none of a mixer slot's or pattern's; channels come in file order with the right kind for their stored type (an instrument with a sample path and empty internal name is a sampler), their display group is the one numbered by the channel, and a layer's children are the channels with the stored IIDs regardless of where they are in the file.",
     ["inputs", "configurations"],
     "all bounded sequences of channels over type x plugin/sample/name presence x group x children, interleaved with pattern and mixer blocks",
     "Tests see one rack layout, in which misattributed events happen not to matter.",
     ["pyflp/channel.py", "pyflp/project.py", "pyflp/_events.py"],
     [("Project.channels event selection", "pyflp/project.py"), ("ChannelRack.__iter__, Layer.__iter__", "pyflp/channel.py")],
     ["project.channels, channel attributes, layers, groups"])

prop("C12", "Lookup, iteration, length and slicing agree",
     "For channels, layer children, automation points, patterns, arrangements, tracks' items, inserts and slots: length (where defined) equals the number of items iterated, NoModelsFound being raised for a project without channels, patterns, inserts or arrangements; an index or name lookup returns the first item that iteration yields with that index/IID/name; a missing one raises ModelNotFound (ChannelNotFound, also a KeyError, for channels; IndexError for a track's items). Slices return the same items as slicing the iterated list, for any start, stop and step. The filtered iterators and the 'current' item are consistent with iteration too.",
     ["inputs", "configurations"],
     "collections of 0 to N items with every name pattern (missing, empty, duplicate, unicode), every index in a window around the bounds, every slice with bounds and step in a window",
     "Tests index a few existing items by position or name; no slices with open or negative bounds, no duplicates.",
     ["pyflp/_models.py", "pyflp/channel.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/mixer.py"],
     [("supports_slice and __getitem__ / __len__ of collections", "pyflp/_models.py and models")],
     ["collection protocol of the models"])

prop("C13", "Playlist items sit on the right track with the right clip",
     "Every playlist record appears exactly once, in record order, on the track of its arrangement that its reversed track number designates (counted from 500 tracks in FL 12.9.1 and later, 199 before), as a channel clip of the channel with that IID when the item index is at most the pattern base, else as a pattern clip of the pattern with the remaining number. Position, length, group and offsets are those of the record, in both record sizes, and re-pointing an item at another channel or pattern persists.",
     ["inputs", "configurations"],
     "every reversed track number, channel IID and pattern number in range, versions on both sides of 12.9.1, both record sizes, bounded lists of records over several tracks and arrangements",
     "The sample project has few items on a few tracks, one version and one record size.",
     ["pyflp/arrangement.py"],
     [("Arrangement.tracks", "pyflp/arrangement.py"), ("PlaylistEvent layout", "pyflp/arrangement.py")],
     ["arrangement.tracks, track items and their attributes"])

prop("C14", "Value conversions are exact inverses",
     "Every stored value of a converted quantity - colours, track height, musical stretch time, stretch multiplier, sample start/length, tempo, note keys, licensee text, reverb type/mix, timestamps, time markers - decodes to the documented value, and writing a decoded value back stores the original bytes; writing any representable value and reading it returns that value.",
     ["inputs"],
     "all 65536/256 stored values where the domain is that small, every millesimal tempo, every byte lane of colours, all ticks over several bars, edge values elsewhere",
     "Tests use one or two points per conversion; off-by-one truncations show only at particular values.",
     ["pyflp/_adapters.py", "pyflp/types.py", "pyflp/arrangement.py", "pyflp/project.py", "pyflp/pattern.py", "pyflp/channel.py", "pyflp/timemarker.py"],
     [("Log2, LogNormal, LinearMusical, height conversion, RGBA", "pyflp/_adapters.py, pyflp/types.py, pyflp/arrangement.py"), ("tempo, licensee, key, reverb properties", "models")],
     ["attribute values", "serialised event bytes"])

prop("C15", "Mixer parameters reach the right insert, slot and band",
     "Each record of the mixer parameter table is exposed on exactly one place: the insert addressed by bits 6-12 of its address, as volume, pan, stereo separation, an EQ band's gain/frequency/resonance, a send level, or - for slot parameters - on the slot addressed by the low 6 bits as enabled flag or mix. Writing one of these attributes changes only the value of that record, and an insert, band or slot without the record reads None and refuses the write (a table holds at most one record per address).",
     ["inputs", "histories"],
     "every insert number x parameter kind, every slot number, tables in any order with missing records, all single writes and pairs of writes",
     "Tests read parameters from single-insert presets (taking the first table entry), never slot parameters, never a write.",
     ["pyflp/mixer.py"],
     [("MixerParamsEvent.items_", "pyflp/mixer.py"), ("_MixerParamProp, _InsertEQProp, Insert.routes", "pyflp/mixer.py")],
     ["insert/slot/EQ attributes", "bytes of the parameter table"])

prop("C16", "Version-dependent rules switch at the documented versions",
     "The project version equals the stored text, versions are totally ordered by their numbers whether or not a build number is given, and setting a version by object, string or tuple stores the same text and build number. Rules switch exactly at their documented versions: text encoding at 11.5, tempo maximum 999 from 1.4.2 up to but excluding 11 and 522 otherwise (minimum 10), fractional tempo from 3.4.0, track count 500/199 at 12.9.1.",
     ["configurations", "inputs"],
     "all versions in a grid around every documented threshold, with and without build; all pairs for ordering; all tempo values around the limits",
     "Tests use one version (20.8.4).",
     ["pyflp/types.py", "pyflp/project.py", "pyflp/arrangement.py", "pyflp/mixer.py", "pyflp/__init__.py"],
     [("FLVersion", "pyflp/types.py"), ("Project.version / tempo, Arrangements.max_tracks", "pyflp/project.py, pyflp/arrangement.py")],
     ["project.version, tempo setter, max_tracks, decoded text"])

prop("C17", "All handles to the same data always agree",
     "Objects obtained from a project are live views: whenever an attribute is written through one handle, every other handle to the same data - obtained before or after, by iteration, index, name, slice, nested attribute or a different parent - reads the new value immediately, including the channel or pattern a playlist clip refers to. There is no path to a stale copy.",
     ["histories"],
     "all pairs (write path, read path) to each aliased datum, with handles taken before and after the write, and all short write/read histories over them",
     "Tests read once per object; none holds two handles to the same datum.",
     ["pyflp/_descriptors.py", "pyflp/_models.py", "pyflp/_events.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/arrangement.py", "pyflp/pattern.py", "pyflp/plugin.py"],
     [("views share event objects; no caching in descriptors", "pyflp/_descriptors.py, pyflp/_models.py")],
     ["attribute reads through all handles"])

prop("C18", "Event objects enforce their ID range and size",
     "An event of a fixed-size kind can only be created with an ID in its range (1-byte: 0-63, 2-byte: 64-127, 4-byte: 128-191; text: 192-207, 231, 239, 241) and exactly 1, 2 or 4 payload bytes, otherwise EventIDOutOfRange or InvalidEventChunkSize is raised. For every event the serialised form is ID, minimal length prefix (IDs from 192), payload; its reported size equals the serialised length, also after its value changes; and two events are equal exactly when IDs and values are equal, comparison with anything else raising TypeError.",
     ["inputs"],
     "every event class x all 256 IDs x payload lengths 0-8 and prefix boundaries; all pairs of a bounded event set for equality",
     "Tests try one ID and one size per class.",
     ["pyflp/_events.py", "pyflp/exceptions.py"],
     [("EventBase.__init__, ALLOWED_IDS, __bytes__, size, __eq__", "pyflp/_events.py")],
     ["constructors, bytes(), size, == of the event classes"])

prop("C19", "Notes, controllers, clips and points are isolated records",
     "The notes and controllers of a pattern, the items of a playlist and the points of an automation clip are exactly the stored records in order, each attribute taken from its own record; an automation point's position is the sum of the offsets up to it and cannot be set. Writing any attribute of one record changes only that field of that record in the saved file, for any number of records and any sequence of writes.",
     ["inputs", "histories"],
     "lists of 0 to N records, every (record, attribute) pair and its values, all ordered pairs of writes to different records",
     "Tests read presets with a few notes and never write.",
     ["pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/channel.py", "pyflp/_models.py", "pyflp/_events.py"],
     [("ItemModel / ListEventBase write-back", "pyflp/_models.py, pyflp/_events.py"), ("NotesEvent, ControllerEvent, PlaylistEvent, AutomationEvent", "models")],
     ["note/controller/item/point attributes", "serialised list event"])

prop("C20", "Plugin data is interpreted by its own plugin name",
     "A plugin data event is exposed as the plugin type named by the closest preceding internal name (natively supported plugins, or the VST wrapper), and as plain bytes for unknown names or when none precedes it; a channel or slot exposes that plugin with its own wrapper window state and parameters, or None without data. VST settings are read from and written to the named record, field or flag bit only (a missing record raises AttributeError on reading, a setting beyond the end of a shorter record reads None, and writing either raises PropertyCannotBeSet), and the settings with inverted meaning read and write inverted. Assigning a plugin of a supported type to a channel or slot that already stores a plugin makes it hold that plugin, also after save and reload; where there is no plugin data or no internal name it raises PropertyCannotBeSet and changes nothing.",
     ["inputs", "histories"],
     "every ordered pair/triple of plugin names over successive channels and slots, every VST flag and record with all combinations of present records, every single write",
     "Tests load one preset per plugin and only read.",
     ["pyflp/plugin.py", "pyflp/__init__.py", "pyflp/channel.py", "pyflp/mixer.py"],
     [("get_event_by_internal_name, plug_name tracking in parse", "pyflp/plugin.py, pyflp/__init__.py"), ("PluginProp, _VSTPluginProp, _VSTFlagProp", "pyflp/plugin.py")],
     ["channel.plugin / slot.plugin and their attributes", "plugin data bytes"])

prop("C21", "Insert and slot events belong to exactly their insert and slot",
     "The mixer's inserts are, in file order, the runs of insert events each ending with the insert's output; each insert reports the name, icon, colour, flags, dock, routing, input and output of its own run, and its slots are, in order, the runs ended by a slot index, each with the plugin, name, colour and icon stored in that run. Channel plugins never show up in the mixer, and iterating yields at most 127 inserts for current versions.",
     ["inputs", "configurations"],
     "all bounded sequences of inserts over presence of each optional event x slots with and without plugins, combined with channels before them",
     "Tests check single-insert presets and a project whose slots are empty.",
     ["pyflp/mixer.py", "pyflp/project.py", "pyflp/_events.py"],
     [("Mixer.__iter__, Insert.__iter__", "pyflp/mixer.py"), ("Project.mixer", "pyflp/project.py")],
     ["project.mixer, inserts, slots and their attributes"])

prop("C22", "Pattern, arrangement, track and marker events have one owner",
     "Each pattern owns exactly the events that follow a start marker with its number, although its blocks may be split and interleaved with others; patterns come in order of first appearance. Each arrangement owns its name, playlist, time markers and tracks up to the next arrangement, each track its own data and the name that follows it, and each time marker the position, name and signature of its own group (all markers of an owner storing the same set of fields); markers before the first arrangement belong to patterns and later ones to arrangements.",
     ["inputs", "configurations"],
     "all bounded interleavings of pattern blocks with optional events and markers, and of arrangements with markers and tracks with or without names",
     "The sample project has one layout and only whole blocks.",
     ["pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/project.py", "pyflp/timemarker.py", "pyflp/_events.py"],
     [("Patterns.__iter__, Arrangements.__iter__, Arrangement.tracks, timemarkers", "pyflp/pattern.py, pyflp/arrangement.py"), ("Project.patterns / arrangements selection", "pyflp/project.py")],
     ["project.patterns, project.arrangements and children"])

prop("C23", "Threads working on different projects do not disturb each other",
     "When several threads parse, read, write and save projects at the same time, each project being used by one thread only, every operation gives the result it gives when the threads run one after another: the parsed events, every attribute, every saved file and every error are those of the thread's own project, whichever way the threads are interleaved and whether or not the library has been used before.",
     ["schedules", "inputs"],
     "all schedules of two threads with one preemption at any executed line of the library (from a fresh process) and with two preemptions at function entries (thorough: lines), over pairs of parse, read, write, save and failing parse on projects of different FL versions and contents",
     "The suite is single-threaded; module-level or descriptor-level state that is reset on entry is invisible to any sequential test.",
     ["pyflp/__init__.py", "pyflp/_events.py", "pyflp/_descriptors.py", "pyflp/_adapters.py", "pyflp/plugin.py", "pyflp/mixer.py"],
     [("parse / save keep their state in local variables", "pyflp/__init__.py"), ("descriptors and adapters, shared by all projects, hold no per-object state", "pyflp/_descriptors.py, pyflp/_adapters.py"), ("EventEnum._missing_ (shared pseudo members)", "pyflp/_events.py")],
     ["results of parse, attribute reads and writes, bytes of saved files in each thread"])

prop("C24", "Editing events changes the file and the models alike",
     "When an event is removed from, put back into or added to the project's event list, or that of any object that holds it, saving writes exactly the edited list, and everything obtained from the project afterwards - whatever had been read before - is what parsing the edited file gives: the same objects in the same places with the same attributes. The object edited holds its former events with that change.",
     ["histories", "inputs"],
     "every removable event of every kind of project removed, put back and replaced through every object that holds it, with everything read before; pairs of neighbouring events in several orders",
     "No test edits the event list of a parsed project; caches and parse-time derivations only show when an edit follows a read.",
     ["pyflp/_events.py", "pyflp/_models.py", "pyflp/_descriptors.py", "pyflp/project.py", "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py"],
     [("EventTree.insert / pop propagate to all ancestors", "pyflp/_events.py"), ("models are derived from their events on every access", "pyflp/project.py, pyflp/channel.py, pyflp/mixer.py, pyflp/pattern.py, pyflp/arrangement.py")],
     ["project.events and model.events editing, every attribute afterwards, bytes of the saved file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
