import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                   observe_at=observe,hook_needed=hook)))
EV='pyflp/_events.py'; IN='pyflp/__init__.py'; PR='pyflp/project.py'; CH='pyflp/channel.py'; MX='pyflp/mixer.py'
PL='pyflp/plugin.py'; PT='pyflp/pattern.py'; AR='pyflp/arrangement.py'; DE='pyflp/_descriptors.py'; MO='pyflp/_models.py'; AD='pyflp/_adapters.py'; TM='pyflp/timemarker.py'; TY='pyflp/types.py'; CO='pyflp/_construct.py'

p('C01','Saving an unmodified project reproduces the file byte for byte',
 'Parsing a well-formed FL Studio file of any supported format and version and saving it again without changes writes a file identical, byte for byte, to the original. This includes the header values, events the library knows nothing about, and known events whose data is shorter or longer than the layout the library understands.',
 ['inputs','configurations'],'Every well-formed container (all header formats, timebases, channel counts, versions from 3.x to 24.x, known and unknown event IDs, old short and new extended payloads).',
 'The suite round-trips one 20.8.4 project; other versions, unknown events, short or extended payloads and preset formats are never saved.',
 [IN,EV],[('parse / save',IN),('EventBase.__bytes__ keeps raw and unparsed bytes',EV)],['saved file bytes'])
p('C02','The parsed event stream mirrors the stored one',
 'After parsing, the project exposes every stored event exactly once and in file order, with the stored ID, the stored size and the stored data, whatever the ID and however many times it repeats. Simple numeric, boolean, colour, pair and text events show the value which the stored bytes denote, and grouping or filtering events by ID neither loses, repeats nor reorders them.',
 ['inputs'],'Every sequence of events over all 256 IDs with arbitrary payloads, any repetition and any interleaving of known and unknown IDs.',
 'Tests construct a few single events and parse one file; repetition, order and rare IDs are not examined.',
 [EV,IN],[('event type dispatch',IN),('EventTree',EV),('EventEnum._missing_',EV)],['project.events: iteration, len, count, first, get, ids, bytes(event), event.size, event.value'])
p('C03','Malformed containers are rejected, never half-loaded',
 'A file with a wrong magic, header size, unknown format, unsupported timebase, a declared data size which disagrees with the file, or cut short at any byte makes parsing raise, header problems being reported as a corrupted header. An event which extends past the end of the data, and text occurring before the version is known, are errors too; the file itself is never modified.',
 ['inputs','fault_sequences'],'Every single-fault corruption of header and chunk fields, and every truncation point of every generated file, with and without an adjusted declared size.',
 'Six hand-made corrupted files exist; truncation points and event-level faults are not covered.',
 [IN,EV,'pyflp/exceptions.py'],[('parse() header validation',IN),('EventBase.__init__ size check',EV)],['exceptions raised by parse'])
p('C04','Text is stored in the encoding of the saving version and survives edits',
 'Every text of a project reads as the characters it was written with: 8-bit (ASCII) text for FL Studio before 11.5 and UTF-16 from 11.5 on, the version text itself always being 8-bit. Assigning any text the encoding can represent stores it in the same encoding with its terminator and the right length, whatever its length, and reads back the same after saving.',
 ['inputs','configurations'],'All versions on both sides of 11.5, all text-carrying settings, and arbitrary strings including empty ones, astral characters and lengths around 127/128 and 16383/16384 bytes.',
 'Tests only use ASCII-range names of one Unicode file.',
 [EV,IN,PR],[('AsciiEvent / UnicodeEvent',EV),('string type decision',IN),('VarInt length prefix',EV)],['text attributes, saved bytes'])
p('C05','Project settings read correctly and edits change only themselves',
 'Each project-level setting (title, artists, genre, comments, link, data folder, licensee, licence and banner flags, loop flag, pitch, volume, panning law, tempo, version, creation time and time spent, channel count, timebase, format) reads what the file stores. Assigning a representable value changes exactly that setting in the saved file, leaves all other bytes as they were, and reads back equal.',
 ['inputs','histories'],'All projects, all representable values, all sequences of edits.',
 'Tests read one file and set almost nothing, and never look at the bytes an edit touches.',
 [PR,DE],[('EventProp / properties of Project',PR),('PropBase.__set__',DE)],['attributes of Project; bytes of the saved file'])
p('C06','Channel settings read correctly and edits change only themselves',
 'Each setting of the channel rack and of its samplers, instruments, layers and automation clips (levels, routing, arpeggiator, echo, effects, envelopes, LFOs, filter, tracking, polyphony, playback, stretching, time, automation points and the rest) reads what the file stores for that very channel. Assigning a representable value changes exactly that setting of that channel in the saved file and nothing else, and reads back equal.',
 ['inputs','histories'],'All channel types, every setting, all payload lengths and versions, all representable values, all edit sequences over several channels.',
 'Tests read one preset per section, set nothing and have one channel per file.',
 [CH,DE,AD],[('StructProp / FlagProp / EventProp',DE),('channel event structs',CH)],['attributes of Channel subclasses and nested sections; saved bytes'])
p('C07','Mixer settings read correctly and edits change only themselves',
 'Each setting of the mixer, its inserts and their effect slots (name, colour, icon, input, output, flags, dock, volume, pan, stereo separation, equaliser bands, levels of the sends to the inserts routed to, slot state and mix) reads what the file stores for that very insert or slot. Assigning a representable value changes exactly that setting in the saved file and nothing else, and reads back equal.',
 ['inputs','histories'],'All inserts and slots, with any subset and order of stored mixer parameters, all representable values, all edit sequences.',
 'Tests read single insert presets and never write; parameter storage shared by all inserts is not exercised.',
 [MX,DE],[('MixerParamsEvent items',MX),('_MixerParamProp, _InsertEQBandProp, FlagProp',MX)],['attributes of Mixer, Insert, InsertEQ, Slot; saved bytes'])
p('C08','Pattern, note and controller data reads correctly and edits stay local',
 'Each property of every pattern, note, pattern controller and pattern time marker reads what the file stores for that very item. Assigning a representable value to an item changes exactly that property of that item in the saved file, neither neighbouring items nor other patterns, and reads back equal.',
 ['inputs','histories'],'All numbers of patterns, notes and controllers, all representable values, all edit sequences over several items.',
 'Tests read a handful of scores; no test edits an item among many.',
 [PT,TM,MO,DE],[('ItemModel.__setitem__',MO),('NotesEvent / ControllerEvent',PT)],['attributes of Pattern, Note, Controller, TimeMarker; saved bytes'])
p('C09','Arrangement, track and playlist data reads correctly and edits stay local',
 'Each property of every arrangement, track, playlist item and playlist time marker, and the global time signature and loop range, reads what the file stores for that very item. Assigning a representable value changes exactly that property of that item in the saved file, and reassigning the channel or pattern of a clip only changes which one it refers to.',
 ['inputs','histories'],'All arrangements, tracks, old (32 byte) and new (60 byte) playlist layouts, all representable values, all edit sequences.',
 'Tests read one project with one layout and never edit.',
 [AR,TM,MO,DE],[('TrackEvent / PlaylistEvent',AR),('ItemModel',MO)],['attributes of Arrangements, Arrangement, Track, playlist items; saved bytes'])
p('C10','Plugin parameters read correctly and edits change only themselves',
 'Each parameter of a supported native plugin, each window option of a plugin host and each option and text of a VST plugin reads what the file stores for that very plugin, in channels and effect slots alike. Assigning any representable value, in particular any value of the documented range, changes exactly that parameter in the saved file (keeping lengths of enclosing records right) and reads back equal.',
 ['inputs','histories'],'All supported plugins in all their stored sizes, any set and order of VST records, all values, all edit sequences.',
 'Tests read one preset per plugin and edit none.',
 [PL],[('_NativePluginProp, _VSTPluginProp, _VSTFlagProp, _WrapperProp',PL),('plugin event structs',PL),('get_event_by_internal_name',PL)],['attributes of plugins; saved bytes'])
p('C11','The channel rack yields every channel once, typed, grouped and layered right',
 'The rack yields exactly the stored channels in stored order, each with its own data, its ID, its kind (sampler, instrument, layer, automation clip; an instrument without a generator but with a sample is a sampler) and its display group, if any. A layer yields exactly the channels stored as its children, wherever they are stored, and the per-kind listings, lookups by ID or shown name and the lengths agree with it.',
 ['inputs'],'All numbers and orders of channels, types, groups, layers with children before or after them, with pattern data and mixer data around and in between.',
 'One project with a fixed set of channels is read.',
 [CH,PR],[('ChannelRack.__iter__, Layer.__iter__',CH),('Project.channels select',PR)],['project.channels'])
p('C12','Patterns are assembled from all their parts',
 'The patterns of a project are exactly the distinct stored pattern IDs, each carrying all and only the data stored under its ID, even when that is split over several places or interleaved with channels. Notes, controllers and pattern markers keep their stored order and never move to another pattern or into an arrangement, and the current pattern is the one whose ID is stored as selected.',
 ['inputs'],'All splits and interleavings of pattern data, with or without notes, controllers, markers and a selection.',
 'The fixture has a single layout; split and interleaved data are not varied.',
 [PT,PR,TM],[('Patterns.__iter__',PT),('Project.patterns select',PR)],['project.patterns'])
p('C13','Arrangements own their tracks, markers and clips',
 'The arrangements of a project are exactly the stored ones in order, each with its own name, markers, tracks and clips, and the current one is the stored selection. Every stored clip appears exactly once, in stored order, on the track it is stored for, as a channel clip or a pattern clip referring to the right channel or pattern, for projects of every version and playlist layout.',
 ['inputs','configurations'],'All numbers of arrangements, tracks and clips, both clip layouts, both track numberings (before and from 12.9.1), with or without names, markers and a selection.',
 'Only one project of one version is read.',
 [AR,PR],[('Arrangements.__iter__, Arrangement.tracks',AR),('Project.arrangements select',PR)],['project.arrangements'])
p('C14','Inserts and effect slots own exactly their data',
 'The mixer yields exactly the stored inserts in order, numbered from -1 for the current one and 0 for the master, each with its own data, its own mixer parameters and its own effect slots in order. Each slot carries the plugin stored for it, and no channel or mixer plugin ever shows up in another place.',
 ['inputs'],'All numbers of inserts and slots, any subset of used slots, optional events, and any order or subset of stored mixer parameters.',
 'Only one project and single insert presets are read.',
 [MX,PR],[('Mixer.__iter__, Insert.__iter__',MX),('MixerParamsEvent.__init__',MX),('Project.mixer select',PR)],['project.mixer'])
p('C15','Collections behave consistently under length, iteration, index, name and slice',
 'For every collection (channels, layer children, patterns, arrangements, inserts, slots, tracks\' clips, automation points) the length (where there is one) equals the number of items iterated, indexing or looking up by name finds the same item iteration yields, and slices equal the slice of the list of items. Looking up something which does not exist raises the documented not-found error, and collections without any item raise the documented error when their length is asked for.',
 ['inputs'],'All sizes (also zero) of every collection, all indexes, names and slices with omitted, negative or out of range bounds and any step.',
 'Tests index a few literal positions of one file.',
 [MO,CH,PT,AR,MX],[('supports_slice',MO),('__getitem__ / __len__ of collections',', '.join([CH,PT,AR,MX]))],['len(), iteration, [], exceptions'])
p('C16','Values which cannot be stored never reach the disk',
 'Assigning a value which the stored field cannot represent (a number out of its range, a wrong type, text its encoding lacks) raises at assignment or when saving. A save refused for that reason leaves the destination as it was, whether it existed or not, and after assigning a valid value again saving succeeds with all other data intact.',
 ['inputs','histories','fault_sequences'],'All settings, all unrepresentable values, existing and absent destinations, failure followed by repair.',
 'Tests never assign an invalid value except for tempo, timebase and version.',
 [IN,EV,CO,DE],[('save() serialises before opening the file',IN),('strict Optional',CO),('StructEventBase.__setitem__',EV)],['exceptions; destination file and its folder'])
p('C17','Data which is not stored reads as absent and cannot be set',
 'When a project does not store a setting, because the event is missing or its data is from a version that did not have the field yet, reading it gives None or the documented default (an attribute error for a VST record). Assigning it raises an attribute error instead of being ignored or shifting other data, and the saved file is unchanged.',
 ['inputs','configurations'],'Every setting, with its event missing or cut before the field, in every supported version.',
 'Fixtures store everything; missing data is hardly covered.',
 [DE,EV,CH,MX,PL],[('PropBase.__get__/__set__',DE),('StructEventBase.__setitem__',EV),('Optional',CO)],['attribute reads and writes; saved bytes'])
p('C18','Reading never changes anything',
 'Reading any attribute, iterating or indexing any collection, comparing, printing or failing to look something up, in any order and any number of times, neither changes what is read later nor what is saved. The same read gives the same answer before and after any other reads. Every object can be printed (an empty collection and a VST plugin lacking its name or vendor record raise the documented error).',
 ['inputs','histories'],'All sequences of reads over all of a project, with saves in between.',
 'Tests do not save after reading nor repeat reads.',
 [EV,DE,CH,MX,AR,PT],[('views created by subtree, divide, group, separate',EV)],['saved bytes and repeated reads'])
p('C19','All views of the same data agree after edits',
 'An edit made to a plain event (a number, a colour, a pair, a text) itself or through any handle on an object (obtained by iteration, index, name, slice, a per-kind listing, as the child of a layer, as the target of a clip, as the current one) is seen at once through every other handle, whether obtained before or after the edit, and ends up in the saved file. Parents, children and siblings never hold diverging copies.',
 ['histories'],'All sequences of edits and reads through all pairs of ways to reach the same object, with handles fetched before and after.',
 'Tests never edit through one handle and read through another.',
 [EV,MO,CH,MX,PT,AR],[('IndexedEvent shared between views',EV),('ItemModel shares its container',MO)],['attribute reads through several handles; saved bytes'])
p('C20','Adding and removing events keeps every view and the file in order',
 'Appending, inserting, extending, popping and removing events through the project or through any of its derived views acts like the same operation on a list: the event lands at, or leaves, the stated place of that view and of all enclosing views, nothing else moves, and the saved file contains the events in the resulting order. Removing an event that is not there raises and changes nothing. The objects of the project, asked for anew, show what the resulting events denote.',
 ['histories'],'All sequences of additions and removals over trees of nested, divided, grouped and separated views.',
 'Tests cover single operations on a three event tree.',
 [EV],[('EventTree.insert, append, pop, remove, __iadd__',EV)],['iteration over views; saved bytes'],
 state=[('root index','position of an event in the file, shared by all views',EV)])
p('C21','Validated settings accept exactly their valid values',
 'Tempo (from 10 BPM), timebase, channel count (not negative), version (three or four numbers, however given) and note keys accept every valid value and reject every other one with the documented error, leaving the stored value as it was. The limits of the tempo follow the version of the project (522 BPM from FL 11, 999 from 1.4.2 to before 11; fractions only from 3.4), and a version\'s build number is kept in step wherever it is stored.',
 ['inputs','configurations'],'All values around every limit, all versions around the thresholds (with and without a build number), all storage forms of the tempo.',
 'Tests try a few literals on one version.',
 [PR,PT,TY],[('tempo, ppq, channel_count, version setters',PR),('Note.key setter',PT),('FLVersion ordering',TY)],['exceptions and reads; saved bytes'])
p('C22','Value conversions are exact inverses',
 'For every storable value of a converted setting (tempo, licensee, colours, note keys, musical time, stretch multiplier, sample start and length, track height, reverb type and mix, marker positions, dates, version numbers) reading it gives the documented value and assigning the value read changes nothing (track heights and licensees: if stored as FL does, in whole percents and letters or digits). Assigning any value of the setting\'s range reads back that value, to the resolution of the stored form.',
 ['inputs'],'The complete stored domain of each conversion (enumerated where finite and small).',
 'Tests convert a few literals in one direction.',
 [AD,TY,PR,PT,AR,CH],[('adapters',AD),('RGBA',TY),('licensee, tempo',PR),('Note.key',PT),('Track.height',AR)],['attribute reads; saved bytes'])
p('C23','Projects are independent and parsing is deterministic',
 'What a project reads and saves depends on its own file and edits only: not on files parsed, edited or saved before, in between or concurrently in other threads, nor on failures while handling them. Parsing the same file again gives an equal project, and saving twice gives the same bytes.',
 ['histories','schedules'],'All interleavings, in one or several threads, of parsing (also of failing files), reading, editing and saving several projects.',
 'Each test handles one file; no shared state is ever provoked.',
 [IN,EV,PL,MX],[('no module level mutable state apart from enum pseudo members',EV)],['saved bytes, reads of one project while others are handled'])
p('C24','Replacing a plugin carries over the whole plugin and nothing else',
 'Assigning a plugin (supported by the library or not) taken from another channel or slot, of the same or of another project, makes the destination hold that plugin: its kind, internal name, parameters and window state read the same there, also after saving. All other data of the destination and of other channels, slots and inserts stays as it was. If only one of the two stores data or window state, assigning raises and changes nothing.',
 ['inputs','histories'],'All pairs of source and destination over all plugins, within and across projects, in sequences.',
 'No test assigns a plugin.',
 [PL],[('PluginProp.__set__',PL)],['plugin attributes; saved bytes'])
p('C25','Equality of projects and their parts reflects their content',
 'Two projects parsed from the same file, or corresponding parts of them (events, channels, patterns, arrangements, tracks, inserts, slots) compare equal when they hold the same data, and unequal as soon as any stored setting of one differs, however deep it is nested. Undoing the difference makes them equal again.',
 ['inputs','histories'],'All settings, all pairs of projects which differ in exactly one setting.',
 'Tests compare small trees only.',
 [EV,MO],[('EventBase.__eq__, EventTree.__eq__',EV),('EventModel.__eq__',MO)],['== and !='])
p('C26','Damaged data is rejected or kept, never silently altered',
 'Whatever the bytes after a valid header are (flipped, missing, inserted, taken from another file, sizes and contents which make no sense), parsing either raises or yields a project which exposes exactly the stored events. Saving it either raises, leaving the destination as it was, or writes the same events with the same data, also after anything has been read from it (which may raise) and, but for the event concerned, after an edit.',
 ['inputs','fault_sequences'],'All byte contents of the data chunk; all reads and edits of projects which are accepted.',
 'Tests parse intact files and two corrupted headers.',
 [IN,EV,CH,PL,MX,AR],[('parse() event loop',IN),('EventBase.__bytes__ keeps the data of unmodified events',EV)],['exceptions; Project.events; saved bytes; destination file'])
p('C27','Parsing and saving touch only their file, let go of it and report failures',
 'Parsing and saving touch only the file they are given (as text or path, absolute or relative, through a link or not, whatever its name): parsing never changes it, saving makes it hold the project and changes nothing else around it, nor its permissions. Neither leaves a file open, whether it succeeds or fails, and a parsed project does not need its file any more. A file which cannot be read or written (missing, a folder, no room for all of the data) makes parsing or saving raise an OS error, after which the project reads as before and can be saved elsewhere.',
 ['inputs','fault_sequences','histories'],'All files and places, all points at which writing can fail, all histories of failed and successful operations.',
 'Tests save to fresh temporary files only; nothing ever fails and open files are not looked at.',
 [IN],[('parse() opens and reads the file',IN),('save() writes the file',IN)],['exceptions; open file descriptors; files around; saved bytes; attribute reads'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
