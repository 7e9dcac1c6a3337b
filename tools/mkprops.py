import json
S="/repo/src/opyenxes/"
def P(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/opyenxes/"+f for f in files],
        state=[dict(name=n,meaning=m,where="src/opyenxes/"+w) for n,m,w in state],
        mechanism=[dict(name=n,where="src/opyenxes/"+w) for n,w in mech],observe_at=list(obs),hook_needed=hook))
R=[]
a=R.append
a(P("P01","XES round trip preserves the whole log",
"Serializing a log to XES XML and parsing the result gives back an equal log: the same traces and events in the same order, and at every level the same attributes with the same key, type and value, nested to any depth, with the children in list and container collections in order. The log's global trace and event attributes, its classifiers and its extensions known to the extension manager also survive. Timestamps survive as the same instant to the millisecond (a naive value counts as UTC); text is limited to what an XML attribute value can carry, and classifier keys hold no quote.",
["inputs"],"every log the factory can build, over all eight attribute types, nesting depths, value ranges and sizes",
"The stable tests never serialize or parse anything (tests/data_in needs the network); one hand-made log could not cover types x levels x nesting x value shapes anyway.",
["data_out/XesXmlSerializer.py","data_in/XesXmlParser.py","model/XAttributeTimestamp.py","utils/XsDateTimeConversion.py","utils/XTokenHelper.py"],
[("recursive attribute writer","data_out/XesXmlSerializer.py:add_attributes"),("SAX stack machine","data_in/XesXmlParser.py:XesXmlHandler")],
[("attribute and element stacks","open elements during parsing","data_in/XesXmlParser.py:XesXmlHandler")],
["XesXmlSerializer.serialize","XesXmlParser.parse"]))
a(P("P02","Every XES element lands at its place in the parsed log",
"Parsing a well-formed XES document yields exactly the log it describes: each attribute element becomes an attribute of the element that encloses it (or of the matching global list), with the type its tag names and the value its text denotes, the last one winning when a key repeats in one element while list and container children are all kept in order; it carries the extension its key's prefix names, if any, and the log's xes. and openxes. attributes become its features. Tag names are matched ignoring case, elements the format does not define are transparent, a missing key reads as UNKNOWN, and a date whose text is no timestamp is left out (with what it contains) without disturbing anything around it.",
["inputs"],"every well-formed XES document: any order and nesting of the defined elements, foreign elements in between, valid and invalid dates, any letter case of tags",
"The tests that parse need the network and read back one generated log; element orders, nesting under globals, invalid dates and foreign elements are never exercised.",
["data_in/XesXmlParser.py","utils/XsDateTimeConversion.py","utils/XTokenHelper.py"],
[("startElement/endElement stack discipline","data_in/XesXmlParser.py:XesXmlHandler")],
[("current log, trace, event, globals list and stacks","parser state between two SAX events","data_in/XesXmlParser.py:XesXmlHandler.__init__")],
["XesXmlParser.parse"]))
a(P("P03","XES writing is standard, complete and read-only",
"The XES writer emits one well-formed document with a lower-case log root that carries the XES version, in which every extension, global, classifier, attribute, trace and event of the log appears exactly once under the standard tag for its type (string, date, int, float, boolean, id, list, container), attributes and their children nested under what they describe. Writing never changes the log, and writing the same log again produces the same document.",
["inputs","histories"],"every log the factory can build, and repeated or interleaved writes of several logs with the same or different writers",
"No stable test writes a document; consistency between writer and reader alone would hide a shared deviation from the format.",
["data_out/XesXmlSerializer.py"],[("element tree construction","data_out/XesXmlSerializer.py:serialize"),("type dispatch","data_out/XesXmlSerializer.py:add_attributes")],
(),["XesXmlSerializer.serialize"]))
a(P("P04","Compressed variants and format choice are transparent",
"Writing a log compressed and reading it back gives the same log as the plain variant of the same format, and the compressed file decompresses to the plain document. A reader claims a file name exactly when the name ends, ignoring case, with one of its suffixes and is longer than it (.xes, .xes.gz or .xez, .mxml or .xml, .mxml.gz), so for any name at most one format applies, every suffix a writer advertises has a reader, and the universal parser returns what the claiming reader returns or raises when none claims it or the content is unreadable.",
["inputs","configurations"],"every file name (letter case, inner dots, bare suffixes), every format, logs of any size, readers registered in any order",
"No stable test opens a file; suffix matching has to hold for every name and the registry iterates readers in arbitrary order.",
["data_in/XUniversalParser.py","data_in/XParserRegistry.py","data_in/XesXmlGZIPParser.py","data_in/XMxmlGZIPParser.py","data_in/XesXmlParser.py","data_in/XMxmlParser.py","data_out/XesXmlGZIPSerializer.py","data_out/XMxmlGZIPSerializer.py","data_out/XSerializerRegistry.py"],
[("suffix test","data_in/XesXmlParser.py:ends_with_ignore_case"),("try every registered parser","data_in/XUniversalParser.py:parse"),("gzip wrapping","data_out/XesXmlGZIPSerializer.py:serialize")],
(),["can_parse","XUniversalParser.parse","serialize of the GZIP writers"]))
a(P("P05","MXML documents are read into the log they describe",
"Parsing an MXML document yields one log per process, in order, with one trace per non-empty process instance and one event per audit trail entry in document order, entries never being reordered or dropped. Names, descriptions, event type (the explicit unknown type when given), originator, valid timestamp and model references become the standard attributes of the element that carries them; data attributes go to the innermost open entry, instance, process or source, and those without text are left out. Each log carries the five standard MXML extensions, the three MXML classifiers and the standard globals. (No claim for a missing instance id, a blank originator or a timestamp's model reference.)",
["inputs"],"every MXML document over the defined elements: several processes, empty instances, data at every level, missing or odd parts, text split by the XML reader",
"No stable test reads MXML at all.",
["data_in/XMxmlParser.py"],[("SAX handler with text buffer","data_in/XMxmlParser.py:MxmlHandler")],
[("open process, instance, entry, pending attributes and text buffer","parser state between SAX events","data_in/XMxmlParser.py:MxmlHandler.__init__")],["XMxmlParser.parse"]))
a(P("P06","MXML round trip keeps what MXML can carry",
"Writing a log as MXML and reading it back keeps the traces that have events and their events in order, the names of log, traces and events, each event's lifecycle transition (standard ones in lower case, others verbatim; complete when missing), its originator (the resource, else role, else group), its timestamp to the millisecond and its model references. Every other attribute with non-blank text, at any nesting depth, survives as a text data attribute of the same log, trace or event, a nested one under all its parents' keys and its own joined by colons (list and container children are in their list's text). Writing leaves the log unchanged; text is taken without surrounding blanks, an attribute of another type counting as its text.",
["inputs"],"every log whose text is representable in MXML",
"No stable test writes or reads MXML.",
["data_out/XMxmlSerializer.py","data_in/XMxmlParser.py"],[("element construction","data_out/XMxmlSerializer.py:serialize"),("data attributes","data_out/XMxmlSerializer.py:add_attribute")],
(),["XMxmlSerializer.serialize","XMxmlParser.parse"]))
a(P("P07","Timestamp text denotes one instant",
"Reading an XES timestamp text of the form date, T, time, optional fraction of one to six digits and optional Z or signed hh:mm zone gives exactly the instant it denotes (no zone meaning UTC), any other text gives no timestamp instead of an error or a wrong instant (the same layout with numbers of other lengths, blanks or a small t aside). Writing a timestamp yields a text that reads back as the same instant to the millisecond with the same zone offset, for every whole-minute offset, naive values being written as UTC.",
["inputs"],"all calendar dates of years 1 to 9999, times, fractions and zone offsets, and malformed texts",
"No stable test touches timestamps; offsets, negative half-hour zones, leap days and fractions need exhaustive or boundary coverage.",
["utils/XsDateTimeConversion.py","model/XAttributeTimestamp.py"],[("zone splitting and strptime","utils/XsDateTimeConversion.py:parse_date_time"),("formatting","model/XAttributeTimestamp.py:__str__")],
(),["parse_date_time","str of a timestamp attribute"]))
a(P("P08","Classifier key lists survive their text form",
"Formatting a list of classifier keys and extracting the tokens gives back the same keys in the same order, for keys that are non-blank, unquoted and carry no surrounding blanks. Extracting tokens from any text splits at blanks outside single quotes, keeps blanks inside them, never produces an empty token and never fails.",
["inputs"],"all key lists and all texts over letters, blanks, colons and quotes",
"No stable test calls the token helper.",
["utils/XTokenHelper.py","data_in/XesXmlParser.py","data_out/XesXmlSerializer.py"],[("quote-aware tokenising","utils/XTokenHelper.py:extract_tokens"),("quoting","utils/XTokenHelper.py:format_token")],(),["XTokenHelper"]))
a(P("P09","Parsing depends on the document alone",
"What a parser returns depends only on the document and the factory in force, never on what was parsed before: parsing again, with the same or another parser object, in any interleaving of formats and after documents that failed, gives equal logs, and no two logs share a mutable part. A parser built with a factory of its own uses that factory for every log, trace, event and XES attribute it creates, otherwise it uses the registry's default at the time it is used or built.",
["histories"],"all sequences of parses of good and broken documents over shared and fresh parsers of both formats, with later mutation of earlier results",
"Needs histories of calls; the stable tests never parse once.",
["data_in/XesXmlParser.py","data_in/XMxmlParser.py","factory/XFactoryRegistry.py"],[("fresh handler per parse","data_in/XesXmlParser.py:parse"),("shared classifier and extension prototypes cloned","data_in/XMxmlParser.py:MxmlHandler")],(),["parse of both parsers"]))
a(P("P10","A clone equals its source and is independent of it",
"Cloning an attribute, attribute map, event, trace or log yields an equal structure at every depth - attributes with type, key, value, extension and nested attributes, list and container children in order, events and traces in order, and for logs also extensions, classifiers, globals and features. Afterwards no change made through one - attribute, value, nested or collection child, event, trace, or entry of a log's extension, classifier, global or feature collection - is visible through the other; cloned events carry new identities and a cloned log starts without a cached summary.",
["histories"],"every element tree, every point of cloning (clones of clones included) and every later sequence of mutations on any copy",
"Aliasing only shows after a later mutation; no stable test clones anything.",
["model/XAttributeMap.py","model/XAttributeCollection.py","model/XEvent.py","model/XTrace.py","model/XLog.py","model/XAttributeLiteral.py","model/XAttributeID.py"],
[("recursive clone","model/XLog.py:clone"),("map clone","model/XAttributeMap.py:clone")],[("attribute map of each element","owned tree of attributes","model/XAttributable.py")],["clone of every model class"]))
a(P("P11","New elements share nothing and events have unique identity",
"Elements created by the factory or the model constructors, with or without initial attributes, never share attribute maps, collections or contents with another element unless the caller passed the same object, and carry exactly what was passed. Every event gets an identity no other event has unless one was supplied, which is then kept; events are equal exactly when their identities are, equal events hash alike, and traces that are equal hash alike as well, the hash of an unchanged trace never varying. Identities survive their text form and order consistently.",
["histories","inputs"],"all sequences of creations and mutations of logs, traces, events and attributes through every constructor and factory signature",
"Sharing through defaults shows only across several objects and later mutation.",
["factory/XFactory.py","model/XElement.py","model/XAttributable.py","model/XEvent.py","model/XTrace.py","id/XID.py","id/XIDFactory.py"],
[("constructor defaults","model/XElement.py:__init__"),("fresh UUID","model/XEvent.py:__init__")],(),["XFactory.create_*","XEvent","XID"]))
a(P("P12","Ordered insertion keeps a trace chronological and stable",
"Inserting an event in order into a trace places it directly after the last event that is not later than it, or at the front when all are later; an event without timestamp, or one whose search from the end meets an event without timestamp, is appended. All other events keep their relative order, the returned index is the event's position, and so a trace built only from timestamped events by ordered insertion is always sorted, equal times in insertion order.",
["histories"],"all sequences of ordered insertions and appends with any timestamps (equal instants in different zones included) and missing timestamps",
"Depends on the whole insertion history; no stable test inserts.",
["model/XTrace.py"],[("backward search","model/XTrace.py:insert_ordered")],[("list of events","the trace","model/XTrace.py")],["XTrace.insert_ordered"]))
a(P("P13","Comparisons form one consistent order",
"For attributes of one type, identities, event classes and classifiers, the comparison function and the six comparison operators describe one total order: antisymmetric, transitive, with zero exactly for equal objects, and equal objects hash alike. Attributes are ordered by key and then by value in the natural order of their type (false before true, timestamps by instant, NaN aside), classes and texts by code point, classifiers by name, number of keys, then keys; lists and containers by key. Objects of different types are never equal.",
["inputs"],"all pairs and triples of same-type objects over keys and values (equal, prefix-related, negative, mixed-zone, int/float)",
"An order law quantifies over all pairs and triples; no stable test compares.",
["utils/CompareUtils.py","model/XAttribute.py","model/XAttributeBoolean.py","model/XAttributeContinuous.py","model/XAttributeDiscrete.py","model/XAttributeID.py","model/XAttributeLiteral.py","model/XAttributeTimestamp.py","id/XID.py","classification/XEventClass.py","classification/XEventAttributeClassifier.py"],
[("compare_to and rich comparisons","model/XAttribute.py"),("three-way helpers","utils/CompareUtils.py")],(),["compare_to, operators, hash"]))
a(P("P14","Timestamp attributes agree in every view",
"A timestamp attribute set from a number of milliseconds since the epoch (at creation or later, negative or large) denotes that instant in every view - its value, its milliseconds, its text - whatever the local time zone of the machine; a zoned value reports the milliseconds of its own instant, fractions included, and a naive one counts as UTC. Its last assigned value is the one every view shows.",
["configurations","histories"],"all local time zones, all instants, all sequences of assignments through both setters",
"Local-zone dependence is invisible on a test machine running in UTC.",
["model/XAttributeTimestamp.py","extension/std/XTimeExtension.py"],[("millisecond conversion","model/XAttributeTimestamp.py:get_value_millis"),("formatting","model/XAttributeTimestamp.py:__str__")],(),["XAttributeTimestamp"]))
a(P("P15","Elements report exactly the extensions they use",
"The extensions an event, trace or attribute reports are exactly the extensions that define its attributes and, recursively, its attributes' own nested attributes, each once, and none when no attribute has an extension. A log reports the extension collection it was given.",
["inputs","histories"],"all attribute trees with and without extensions, after any sequence of additions and removals",
"No stable test asks an element for its extensions.",
["model/XAttributable.py","model/XLog.py"],[("collection over attributes","model/XAttributable.py:get_extensions")],(),["get_extensions"]))
a(P("P16","Classifiers group events by their keys' values",
"A classifier puts two events in the same class exactly when, for each of its keys, both events have equal textual values, a missing attribute counting as empty; this is an equivalence and agrees with equality of the class identities (values that contain the character & aside). The identity is the values joined by && in key order, one slot per key for any number of keys, and a composite AND classifier groups two events exactly when all its parts do, its keys being the sorted union of theirs and its name listing theirs in order.",
["inputs"],"all key lists and all pairs of events with present, missing, empty and differently typed attributes",
"The relation quantifies over pairs of events and key subsets; no stable test classifies.",
["classification/XEventAttributeClassifier.py","classification/XEventAndClassifier.py","classification/XEventNameClassifier.py","classification/XEventResourceClassifier.py","classification/XEventLifeTransClassifier.py"],
[("identity string","classification/XEventAttributeClassifier.py:get_class_identity"),("key union","classification/XEventAndClassifier.py:__init__")],(),["get_class_identity","same_event_class"]))
a(P("P17","Event classes partition and count the registered events",
"After any sequence of registrations of logs, traces, events or class identities, the set holds one class per distinct identity, the size of each is the number of times it was registered (a size set explicitly stands in for those up to then) and the class of an event is the one with its identity. Indices are distinct and cover 0 to n-1; after harmonizing they follow the alphabetical order of identities, sizes and identities unchanged, and lookups by index and identity agree.",
["histories"],"all sequences of registrations and harmonizations in any order, over any identities",
"Index and size correctness depends on the order of registrations and harmonizations.",
["classification/XEventClasses.py","classification/XEventClass.py"],[("register","classification/XEventClasses.py:register"),("harmonize_indices","classification/XEventClasses.py:harmonize_indices")],
[("class map","identity to class","classification/XEventClasses.py")],["XEventClasses"]))
a(P("P18","A log summary counts exactly what the log holds",
"A log summary reports the number of traces and events of the log, and for its default classifier, every extra classifier given and the name, resource and lifecycle classifiers, the event classes and sizes that log yields, with harmonized indices and sizes adding up to the number of events. Its time boundaries span exactly the events of the log, and of each trace when asked for that trace, and creating a summary works for every log and never changes it.",
["inputs"],"all logs: empty logs and traces, equal traces, missing timestamps, every attribute type including lists and nested attributes, any classifier selection",
"No stable test builds a summary.",
["info/XLogInfo.py","info/XLogInfoFactory.py","model/XTrace.py"],[("single pass over the log","info/XLogInfo.py:setup")],[("per-trace bounds keyed by trace","time bounds","info/XLogInfo.py")],["XLogInfo"]))
a(P("P19","Time bounds are the extremes of what was registered",
"After registering any mix of dates, events and other bounds in any order, the start is the earliest and the end the latest instant among them, both absent when nothing with a time was registered; events without timestamp and empty bounds change nothing. A date is within the bounds exactly when it is not before the start and not after the end.",
["histories"],"all registration sequences in all orders, with equal instants, mixed zones, single elements, nested and empty bounds",
"An order-independence claim over all histories; no stable test registers times.",
["info/XTimeBounds.py","extension/std/XTimeExtension.py"],[("register","info/XTimeBounds.py:register"),("is_within","info/XTimeBounds.py:is_within")],[("first and last","current extremes","info/XTimeBounds.py")],["XTimeBounds"]))
a(P("P20","Attribute statistics match the attributes seen",
"Attribute information lists one prototype per distinct key registered, with the type and extension of the first attribute seen under that key; its frequency is the number of times the key was registered, its relative frequency that number over all registrations. Queries by type, by extension and without extension return exactly the prototypes, or keys, that match, and in a log summary the four registries hold exactly the attributes of log, traces, events, and nested attributes at any depth.",
["histories","inputs"],"all sequences of registered attributes over keys, types, extensions and nesting",
"No stable test collects attribute statistics.",
["info/XAttributeInfo.py","info/XLogInfo.py","utils/XAttributeUtils.py"],[("register","info/XAttributeInfo.py:register"),("recursive registration","info/XLogInfo.py:register_attributes")],[("key, type, extension and frequency maps","statistics","info/XAttributeInfo.py")],["XAttributeInfo"]))
a(P("P21","Log summaries are cached per classifier",
"Asking for a log's summary with the classifier used last for that log returns the cached summary object, asking with any other classifier builds a summary for that classifier and makes it the cached one; classifiers with equal name and keys count as the same. The cache of one log never answers for another or for a clone, and never returns a summary built for a different classifier.",
["histories"],"all sequences of requests over several logs, classifiers, explicit cache settings and clones",
"The answer depends on the history of requests; no stable test asks twice.",
["info/XLogInfoFactory.py","model/XLog.py"],[("single-entry cache","model/XLog.py:get_info")],[("cached classifier and info","the cache entry","model/XLog.py")],["XLogInfoFactory.create_log_info","XLog.get_info/set_info"]))
a(P("P22","Registries keep their default and members; singletons stay single",
"In every registry the current default is always one of the available instances: the first instance registered becomes it, later registrations do not displace it, setting a default also makes it available, and registering the same instance again changes nothing. The factory, parser, serializer and extension registries, the standard extensions and the other documented singletons are one object per process however often and in whatever order they are obtained, distinct singletons never being the same object.",
["histories"],"all sequences of register, set default and lookup calls, all orders of first access to the singletons",
"Depends on call order; the stable tests touch only the extension manager.",
["utils/XRegistry.py","utils/SingletonClassGenerator.py","factory/XFactoryRegistry.py","data_in/XParserRegistry.py","data_out/XSerializerRegistry.py"],
[("register/set_current_default","utils/XRegistry.py"),("metaclass instance slot","utils/SingletonClassGenerator.py")],[("registry set and current default","registry","utils/XRegistry.py")],["XRegistry API","class calls"]))
a(P("P23","Extension lookups agree with each other",
"The extension manager always knows the eight standard extensions, and every extension registered is found by its URI, name, prefix and index, index and extension lookups being inverse; unknown names, prefixes, URIs and indices give nothing (-1 for the index). Registering an extension whose URI is already known replaces the former one in every lookup without growing the list or moving any index, and an extension's defined attributes are at all times the union of those it defines for log, trace, event and meta level.",
["histories"],"all sequences of registrations (new, repeated, overriding) and lookups",
"The stable tests look up the standard extensions once and never register another one.",
["extension/XExtensionManager.py","extension/XExtension.py"],[("register","extension/XExtensionManager.py:register")],[("map by URI and ordered list","registered extensions","extension/XExtensionManager.py")],["XExtensionManager API"]))
a(P("P24","Extension definition files define exactly what they state",
"Parsing an extension definition yields an extension with the stated name, prefix and URI, whose log, trace, event and meta attributes are exactly those defined in the corresponding section, each with its type, the prefixed key, the type's default value and the extension itself, without needing the network for a local file. Every alias is registered under its language for that attribute in the global name mapping and no other mapping changes.",
["inputs","histories"],"all definition files over sections, attribute types, alias languages, tag letter case, and sequences of them",
"The only stable test of the parser creates it and parses nothing.",
["extension/XExtensionParser.py","info/XGlobalAttributeNameMap.py"],[("SAX handler","extension/XExtensionParser.py:XExtensionHandler")],[("current section and attribute","parser state","extension/XExtensionParser.py")],["XExtensionParser.parse"]))
a(P("P25","The extension cache keeps fresh definitions and drops stale ones",
"Caching an extension stores its definition, byte for byte, in the cache folder under the last part of its URI with the definition suffix, creating the folder when needed and working when it already exists; a failed download leaves the manager usable. Loading the cache registers every readable definition not older than thirty days whose URI is still unknown, deletes older definitions, never replaces an extension already registered, ignores other files and survives unreadable ones.",
["histories","fault_sequences"],"all sequences of caching, ageing, loading and registration, with failing downloads and broken cache files",
"Depends on file ages, faults and history; no stable test uses the cache.",
["extension/XExtensionManager.py","utils/XRuntimeUtils.py"],[("cache_extension","extension/XExtensionManager.py:cache_extension"),("load_extension_cache","extension/XExtensionManager.py:load_extension_cache"),("support folder","utils/XRuntimeUtils.py:get_support_folder")],[("cache folder","files with ages","utils/XRuntimeUtils.py")],["cache_extension","load_extension_cache"]))
a(P("P26","Standard extension accessors read back what was assigned",
"For every attribute of the standard extensions, extracting returns the value assigned last through that accessor, and the documented absent value (nothing, or -1 for micro level and length) before any assignment or after removal; blank text, missing values and non-positive amounts are ignored and change nothing (amounts and levels must be positive, lengths not negative). An assignment sets exactly the attribute with that accessor's key, typed and carrying its extension, leaves every other attribute and every other element untouched, and never changes the extension's own prototypes; lifecycle transitions decode to the standard model or unknown and model references keep their order and spelling.",
["histories"],"all sequences of assign, remove and extract calls over all accessors and elements",
"The only stable test of an extension creates it; interference between accessors needs sequences.",
["extension/std/XConceptExtension.py","extension/std/XCostExtension.py","extension/std/XIdentityExtension.py","extension/std/XLifecycleExtension.py","extension/std/XMicroExtension.py","extension/std/XOrganizationalExtension.py","extension/std/XSemanticExtension.py","extension/std/XTimeExtension.py"],
[("clone prototype, set value, store by key","extension/std/*.py")],[("attribute map of the element","assigned values","model/XAttributable.py")],["assign_*, extract_*, remove_*"]))
a(P("P27","Nested cost values are stored and found along their key path",
"Assigning cost amounts, drivers or types by key path stores each value at the attribute reached by following the keys from the element, creating missing text attributes on the way and leaving existing ones and their other children alone. Extracting nested values returns exactly one entry per attribute that carries such a value, under the full path of keys leading to it, and extracting flat values exactly the first-level ones, so that what was assigned is what is extracted.",
["inputs","histories"],"all sets of key paths of any depth, all existing attribute trees, all sequences of assignments of the three kinds",
"No stable test assigns nested values.",
["extension/std/XAbstractNestedAttributeSupport.py","extension/std/XCostExtension.py"],[("path recursion","extension/std/XAbstractNestedAttributeSupport.py")],(),["assign_*/extract_* amounts, drivers, types and nested variants"]))
a(P("P28","Attribute naming always yields a name",
"Each attribute name mapping returns the alias registered last for an attribute or key, and nothing otherwise; mappings are created on first use, exist once per name and never influence each other. Safe mapping returns the alias from the requested mapping if it has one, else the one from the standard English mapping, else the key itself - also when the requested mapping does not exist - and asking never creates a mapping.",
["histories"],"all sequences of registrations, lookups by key or attribute, by mapping or mapping name, known and unknown",
"Fallback depends on the registration history; no stable test maps names.",
["info/XAttributeNameMap.py","info/XGlobalAttributeNameMap.py"],[("fallback chain","info/XGlobalAttributeNameMap.py:map_safely")],[("mappings by name","aliases","info/XGlobalAttributeNameMap.py")],["map, map_safely, get_mapping, register_mapping"]))
a(P("P29","Timers measure from start to stop and durations add up",
"A timer's duration is the clock time in milliseconds from its last start (or its creation) to its stop, or to now while it is running, and is never negative; restarting discards the earlier measurement. The formatted text of a duration names days, hours, minutes, seconds and milliseconds whose amounts add up to that duration, in this order, each larger unit only when the remainder exceeds it.",
["histories","inputs"],"all sequences of start, stop and queries under any advancing clock; all durations",
"Depends on call order and clock; no stable test uses the timer.",
["utils/XTimer.py"],[("start/stop","utils/XTimer.py"),("format_duration","utils/XTimer.py:format_duration")],[("start and stop instants","timer state","utils/XTimer.py")],["XTimer"]))
a(P("P30","Attribute types and prototypes are derived faithfully",
"Each attribute is reported as exactly one of the eight types, the one it was created with, by class and by name. Its derived prototype has the same type, key, extension and nested attributes but the type's default value (UNKNOWN, true, 0, 0.0, the epoch, a fresh identity; collections keep their children), deriving it never changes the attribute, and later changes to one never show in the other.",
["inputs"],"all attributes of the eight types with any value, extension and nesting",
"No stable test derives a prototype.",
["utils/XAttributeUtils.py"],[("type dispatch","utils/XAttributeUtils.py:get_type"),("derive_prototype","utils/XAttributeUtils.py:derive_prototype")],(),["XAttributeUtils"]))
a(P("P31","A wrapped event is a live view of its event",
"Every getter of an extended event returns what the corresponding standard extension reads from the wrapped event, and every setter has the effect of that extension's assignment on it, values unaltered; changes made through the wrapper, another wrapper or the event itself are visible through all of them at once. Cloning a wrapper wraps an independent copy of the event.",
["histories"],"all sequences of wraps, gets, sets, direct mutations and clones on several wrappers of several events",
"Visibility through aliases needs sequences of operations on several handles.",
["extension/std/XExtendedEvent.py"],[("delegation","extension/std/XExtendedEvent.py")],(),["XExtendedEvent"]))
a(P("P32","Log messages reach the current listener",
"A message logged through a logger with an importance reaches exactly that logger's listener in force at that time, once, with that text and importance; without importance it arrives as a debug message and without listener it is dropped. Every other library operation has the same result whatever listener or none is in force.",
["histories"],"all sequences of listener changes and log calls",
"Depends on the order of listener changes and messages; no stable test logs.",
["log/XLogging.py","log/XStdoutLoggingListener.py"],[("log","log/XLogging.py:log")],[("listener","current receiver","log/XLogging.py")],["XLogging.log, set_listener"]))
a(P("P33","Standard extensions keep one fixed definition",
"Each standard extension (concept, cost, identity, lifecycle, micro, organizational, semantic, time) has its standard name, prefix and URI and defines exactly its standard attributes at log, trace, event and meta level, each with the prefixed key, its type, its initial value and the extension itself, its English name and, where it has them, the German, French, Spanish and Portuguese ones being in the name mapping. This holds from the first time it is obtained, in whatever order extensions and manager are first used, and nothing done with elements, documents, prototypes, other extensions or factories changes it.",
["histories"],"every order of first use of the extensions and the manager, and any work with elements, documents and factories in between",
"Definitions are process-wide objects that every element and document shares; the stable tests create extensions and look at none after use.",
["extension/std/XConceptExtension.py","extension/std/XCostExtension.py","extension/std/XIdentityExtension.py","extension/std/XLifecycleExtension.py","extension/std/XMicroExtension.py","extension/std/XOrganizationalExtension.py","extension/std/XSemanticExtension.py","extension/std/XTimeExtension.py","extension/XExtension.py"],
[("definition on construction","extension/std/*.py")],[("attribute prototypes per level","definition","extension/XExtension.py")],["X*Extension(), get_*_attributes, XExtensionManager"]))
a(P("P34","Logs, traces, maps and collections hold exactly what is put in",
"A log is the sequence of the traces put in it and a trace of its events: adding at the end or at a position, several at once, replacing, taking out by position or as the first equal member, reversing, stable sorting and clearing leave exactly the members this describes, as the very objects given, in this order, repeated or equal members included; counting, finding, membership, slices, length and iteration agree with it, and a failing removal raises an error and changes nothing. Logs' classifiers, global attributes, extensions and features and the children of lists and containers, in the order added, are likewise what was put in, an attribute map holds for each key the last attribute stored under it, an element has the very map last set and has attributes exactly when it is not empty, and none of this changes another element.",
["histories"],"every history of changes to any number of logs, traces, events, attributes, maps and collections, with shared, repeated and equal members and positions from either end",
"The stable tests append single elements and look at one at a time; that no operation reorders, loses, merges or shares members has to hold for every history.",
["model/XLog.py","model/XTrace.py","model/XEvent.py","model/XAttributeMap.py","model/XAttributable.py","model/XElement.py","model/XAttributeCollection.py","factory/XFactory.py"],
[("sequence protocol of traces and logs","model/XTrace.py, model/XLog.py"),("attribute maps","model/XAttributeMap.py"),("children","model/XAttributeCollection.py")],[("members, attribute maps, classifiers, globals, extensions, features","contents","model/XLog.py")],["XLog, XTrace, XAttributeMap, get_collection, add_to_collection, has_attributes"]))
a(P("P35","An object's text tells what it holds",
"The text (str) of an attribute is its current value: a literal's text itself, a number's digits, true or false, an identity in capitals, a timestamp in the XES layout; that of a list or container is its children in order, each as key:text, between brackets and separated by commas, nested to any depth, whatever nested attributes they have, [] when empty. A copy has the same text. A name mapping's text is its name and a line for each alias, the global mapping's that of every mapping it has, time bounds' the two bounds, and identities, event classes, sets of event classes, classifiers and extensions tell their identity or name. Each is that of the moment it is asked for, and asking changes nothing.",
["inputs","histories"],"every attribute, mapping, bound, identity, class, classifier and extension, and every history of changes to them",
"Classes, MXML and stored nested lists rest on these texts; the stable tests look at a few fixed values and never at lists, mappings or texts after a change.",
["model/XAttributeCollection.py","model/XAttributeLiteral.py","model/XAttributeBoolean.py","model/XAttributeContinuous.py","model/XAttributeDiscrete.py","model/XAttributeID.py","model/XAttributeTimestamp.py","id/XID.py","info/XAttributeNameMap.py","info/XGlobalAttributeNameMap.py","info/XTimeBounds.py","classification/XEventClass.py","classification/XEventClasses.py","classification/XEventAttributeClassifier.py","extension/XExtension.py"],
[("text of a collection","model/XAttributeCollection.py:__str__"),("text of mappings","info/XAttributeNameMap.py:__str__")],(),["str()"]))
a(P("P36","Support folders lie where the platform keeps them",
"The platform is Windows, Mac OS X or Linux exactly when the system's name starts with win32, darwin or linux; the latter two and FreeBSD are Unix, Windows is not. The support folder is OpenXES in the user's home (the user profile if set) on Windows, Library/Application Support/OpenXES on Mac OS X and .OpenXES elsewhere, answered with a closing separator, and the extension cache folder is ExtensionCache in it. Asking for either creates it and what it lies in if missing, and neither creates anything else nor changes or removes what is there, however often it is asked.",
["configurations","histories"],"every platform name, every home folder, existing or not, and every history of asking, storing and losing the folders",
"No stable test runs on another platform, with another home or with folders already there.",
["utils/XRuntimeUtils.py"],[("platform test and folders","utils/XRuntimeUtils.py")],(),["XRuntimeUtils"]))
a(P("P37","Broken streams are reported, never passed off as whole",
"Reading a log from a file or stream that ends before the document does, whose compressed data is damaged, or that fails while it is read, raises an error, in every format and with the universal reader too; a log is only ever delivered when the whole document arrived, however it is cut into pieces, and it is the whole log. Writing to a stream or disk that fails raises an error and leaves the log as it was. After a failure the same reader and writer work as before.",
["crash_points","fault_sequences","inputs"],"every log, every byte at which a document is cut, every damaged byte of compressed data, every failing read or write and every disk size, and every sequence of such attempts",
"Tests read good files and write to good ones; no test breaks a stream at any point, let alone at all of them.",
["data_in/XesXmlParser.py","data_in/XMxmlParser.py","data_in/XesXmlGZIPParser.py","data_in/XMxmlGZIPParser.py","data_in/XUniversalParser.py","data_out/XesXmlSerializer.py","data_out/XMxmlSerializer.py","data_out/XesXmlGZIPSerializer.py","data_out/XMxmlGZIPSerializer.py"],
[("reading","data_in/XesXmlParser.py:parse"),("compressed","data_in/XesXmlGZIPParser.py:parse"),("writing","data_out/XesXmlSerializer.py:serialize")],(),["parse(), serialize()"]))
a(P("P38","Looking at a log changes nothing and depends on its contents alone",
"Whatever is asked of a log - documents of it, summaries, classes of its events, extensions, values by the extensions' accessors, nested costs, texts, comparisons, copies, types, prototypes, names, wrappers, time bounds - leaves the log and all in it as it was. The answer depends on what the log holds at that moment alone: not on what was asked before, on changes since undone or on how the log came about. Asked twice, or of another log with the same contents, the answer is the same.",
["histories","programs"],"every log, every question and every sequence of questions, changes and their undoing",
"Tests ask each object once, freshly made; an answer kept from before a change, or a question that leaves a trace in the log, shows only over longer histories.",
["data_out/XesXmlSerializer.py","data_out/XMxmlSerializer.py","classification/XEventAttributeClassifier.py","info/XLogInfo.py","extension/std/XCostExtension.py","utils/XAttributeUtils.py","model/XAttribute.py","model/XAttributeMap.py","extension/std/XExtendedEvent.py"],
[("documents","data_out/XesXmlSerializer.py:serialize"),("classes","classification/XEventAttributeClassifier.py:get_class_identity"),("extensions","utils/XAttributeUtils.py:extract_extensions")],(),["every read operation of the public API"]))
a(P("P39","Threads do not disturb each other",
"Threads that work on logs of their own, or only read a shared one, get what each would get alone, under every schedule, also where they share readers, writers or classifiers. Every single instance (extension manager, standard extensions, registries, name map) is made once, whichever threads ask for it first and at the same time. New identities are unique across threads, and all threads come to their end.",
["schedules","programs"],"every schedule of threads and every job that reads, writes, asks about or makes logs",
"Tests run in one thread; what goes wrong between two lines of another thread needs that schedule.",
["utils/SingletonClassGenerator.py","data_in/XesXmlParser.py","data_in/XMxmlParser.py","data_in/XUniversalParser.py","data_out/XesXmlSerializer.py","data_out/XMxmlSerializer.py","extension/XExtensionParser.py","extension/XExtensionManager.py","classification/XEventAttributeClassifier.py","utils/XAttributeUtils.py","utils/XTokenHelper.py","id/XID.py"],
[("single instances","utils/SingletonClassGenerator.py:__call__"),("state of a reading","data_in/XesXmlParser.py:parse"),("state of a writing","data_out/XesXmlSerializer.py:serialize")],(),["constructors of the single instances","parse(), serialize(), every read operation"]))
with open("/verif/properties.jsonl","w") as f:
    for r in R: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(R))
