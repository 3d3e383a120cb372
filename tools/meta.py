#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'src/kml/dom/'
B = 'src/kml/base/'
E = 'src/kml/engine/'
C = 'src/kml/convenience/'
G = 'src/kml/regionator/'
TECH = ('contract-based deductive verification of the real functions: clang translates /repo\'s sources to LLVM IR on every run, '
        'a verification-condition generator checks each function against its contract (callers against callee contracts, loops by inductive invariants), z3 and cvc5 discharge; ')
P = []


def p(id, title, statement, over, text, why, files, mech, level_note, theorems=None, level='proof', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, level=level, theorems=theorems, observe=list(observe)))


p('D01', 'Element accessors: what is set is read back, nothing else changes',
  'For every KML element class and every field it declares, a newly created element has the field unset; setting it makes the field present with exactly the value given; clearing it makes it absent again with its documented default; items appended to a repeated field are kept in order and removal takes out exactly the item asked for. No accessor changes any other field of the element.',
  ['inputs', 'histories'], 'for every element class, every field, every value and every prior state of the element',
  'Tests set each field once on a fresh element with one value; the claim is for every value and every prior state, and that no other field moves (about 90 classes, 500 fields, quadratically many interactions).',
  [D + '*.h', D + 'element.h', D + 'element.cc'],
  [('generated-by-hand accessor triples (get/has/set/clear) of each class', D + '*.h'), ('SetComplexChild / AddComplexChild / DeleteFromArrayAt', D + 'element.h')],
  'every accessor of every element class, for all values and all prior states; the class and field list is enumerated from the headers on each run')
p('D02', 'Writing an element writes every set field exactly once, and nothing unset',
  'Serializing any element emits each field, attribute and child that is present exactly once, under its own element or attribute name, with its own value and in list order for repeated ones, emits nothing for absent fields, also emits the unknown attributes and elements kept from parsing, and leaves the element unchanged.',
  ['inputs'], 'for every element class and every combination of present and absent fields and list lengths',
  'Tests serialize a few hand-picked combinations; there are 2^fields combinations per class and unbounded list lengths.',
  [D + '*.cc', D + 'serializer.h', D + 'element.cc'],
  [('Serialize / SerializeAttributes of each class', D + '*.cc'), ('Serializer::SaveFieldById, SaveElement, SaveElementArray', D + 'serializer.h')],
  'each Serialize/SerializeAttributes of every element class against a contract on the sequence of writer calls; the writers themselves (text formatting) are under D06')
p('D03', 'Reading: every child and attribute lands in its own field, none is lost',
  'When a document is parsed, each child element or attribute an element recognises sets exactly the field of that name to the value of its text and leaves all other fields alone; a repeated child is appended; anything not recognised in that place is kept as unknown or misplaced content, never dropped silently. Hence text written by the library reads back to the same content.',
  ['inputs'], 'for every element class, every kind of child element in every place, every text',
  'There are ~90x250 parent/child combinations and unbounded texts; tests parse a few dozen snippets.',
  [D + '*.cc', D + 'element.cc', D + 'kml_handler.cc'],
  [('AddElement / ParseAttributes of each class', D + '*.cc'), ('Element::AddElement, AddUnknownElement, AddUnknownAttributes', D + 'element.cc'), ('Field::SetBool/SetInt/SetDouble/SetString/SetEnum', D + 'element.cc')],
  'AddElement and ParseAttributes of every element class for every child type; text-to-number conversion is an uninterpreted total function here')
p('D04', 'Each element has at most one parent and children are shared safely',
  'An element is accepted as a child only if it has no parent yet and belongs to the same file (or none) as its new parent; from then on that parent is its only one. A child that is refused changes neither itself nor the element that refused it.',
  ['inputs', 'histories'], 'for every element class, every child-holding field, every child and every prior state',
  'Tests try adoption for a few classes; the rule has to hold for every child-holding setter of every class, in every prior state.',
  [D + 'element.h', D + '*.h', B + 'xml_element.h', B + 'referent.h'],
  [('SetComplexChild / AddComplexChild', D + 'element.h'), ('XmlElement::SetParent, DetachFromParent', B + 'xml_element.h'), ('intrusive reference counts', B + 'referent.h')],
  'every pointer-valued setter/adder/remover of every class against the ownership contract')
p('D05', 'Dynamic types, casts, factory, tag names and enum texts agree',
  'Every element reports the type of its own class and is-a exactly its own class and the classes it derives from; each AsX cast returns the element for those and null for every other element and for null. The factory makes exactly the class asked for by id and nothing for an id without a class; tag names and type ids map to each other one to one, and enum texts and values map to each other with unknown texts and out-of-range values mapping to nothing.',
  ['inputs'], 'for every element class, every type id, every cast, every tag text, every enum text and every integer value',
  'Tests check casts and names for a fraction of ~90 classes x ~100 casts x 220 ids; a single wrong entry is type confusion on a downcast.',
  [D + 'kml22.h', D + 'kml22.cc', D + 'kml_cast.cc', D + 'kml_factory.cc', D + 'xsd.cc', D + '*.h'],
  [('Type / IsA / ElementType of each class', D + '*.h'), ('casts', D + 'kml_cast.cc'), ('CreateElementById', D + 'kml_factory.cc'), ('Xsd tables', D + 'xsd.cc')],
  'every class, cast, id, tag and enum text; any text and any int for the tables')
p('D06', 'Written XML is well formed and reads back to the same texts',
  'For every element tree, the raw and the pretty text are well-formed XML: every start tag is closed by its own end tag in nesting order, an element with no content is written as an empty element, and every text and attribute value, whatever characters XML allows it holds (markup, quotes, CDATA markers, line breaks, carriage returns), is written so that an XML reader gets back exactly that value. Raw and pretty differ only in white space between elements. No element gives the empty text.',
  ['inputs'], 'for every sequence of writer calls, every nesting depth, every text and attribute value',
  'Texts and trees are unbounded; tests write a few harmless ones, and the dangerous texts ("]]>", quotes in attributes, CDATA markers) are exactly those nobody samples.',
  [D + 'xml_serializer.h', D + 'xml_serializer.cc', D + 'serializer.cc', D + 'serializer.h', B + 'attributes.cc'],
  [('XmlSerializer', D + 'xml_serializer.h'), ('MaybeQuoteString, EnityEscapeXml', D + 'serializer.cc'), ('Attributes::Serialize', B + 'attributes.cc')],
  'every method of the XML writer in every state (open elements, pending start tag, raw and pretty), quoting and escaping for all texts, loops by fold invariants')
p('D07', 'Parsing builds exactly the tree of the text, or reports an error',
  'Parsing any text either gives the root element or gives nothing together with an error message, never crashes, and gives nothing for text that is not well formed, has an unknown root, declares entities or is nested deeper than 100 levels. Every known element of the text becomes an element of its own type under its own parent, in order, with its attributes and its character data; what is not known is kept as text (tags, attributes and character data) with the element it stands in, and content of a description is taken as its text. Observers see each element once when it starts and once when it ends, and can refuse it or stop the parse.',
  ['inputs', 'histories'], 'for every input text and every sequence of parser events',
  'Input texts are unbounded and often hostile; tests parse well-behaved samples. Interactions of unknown content, descriptions, depth and observers are a matter of every event sequence.',
  [D + 'kml_handler.cc', D + 'kml_handler.h', D + 'kml_handler_ns.cc', D + 'parser.cc', B + 'expat_parser.cc', B + 'expat_handler.h'],
  [('KmlHandler::StartElement, EndElement, CharData, PopRoot', D + 'kml_handler.cc'), ('KmlHandlerNS', D + 'kml_handler_ns.cc'), ('ExpatParser', B + 'expat_parser.cc'), ('Parser::Parse, ParseNS', D + 'parser.cc')],
  'each SAX callback as a transition contract from any state of the handler (known, unknown and description content); the tree claim is the induction over the events of the XML parser')
p('D09', 'Visiting reaches every element exactly once, through the right hook',
  'Traversing a document with a visitor reaches every element of the tree exactly once, parents before children (or after, for the post-order driver), repeated children in list order; each visit calls the hook of the element\'s own class, whose default hands the element to the hook of its base class.',
  ['inputs'], 'for every element class, every tree and both drivers',
  'Tests visit three or four small trees and not every class; a class that forgets one child, or a hook that delegates to the wrong base, goes unnoticed.',
  [D + '*.cc', D + 'visitor.cc', D + 'visitor_driver.cc'],
  [('Accept / AcceptChildren of each class', D + '*.cc'), ('default hooks', D + 'visitor.cc'), ('drivers', D + 'visitor_driver.cc')],
  'Accept, AcceptChildren of every concrete class, every default hook and both drivers; the whole-tree claim is the induction over these contracts')
p('E01', 'Style resolution: shared style first, inline style over it, always ends',
  'The resolved style of a feature is what its styleUrl refers to with its inline style merged over it; a Style contributes all it sets, a StyleMap the Pairs of the wanted state in order, each in turn its reference and then its inline style. A reference is looked up among the shared styles of the file, or of the file its url names relative to that of this one. At most five references are followed for a feature, so loops end; anything missing or malformed is left out. There is always a resolved style, it is new, and the file is left as it was.',
  ['inputs'], 'for every feature, every file and any cycle of references among styles',
  'References form arbitrary graphs, across files and with cycles; tests resolve a few fixed ones.',
  [E + 'style_resolver.cc', E + 'style_merger.cc', E + 'style_merger.h', E + 'kml_file.cc'],
  [('StyleMerger', E + 'style_merger.cc'), ('StyleResolver::CreateResolvedStyle, CreateResolvedStyle', E + 'style_resolver.cc')],
  'every function of StyleMerger and StyleResolver; what a step yields is a function of what was merged so far, the references left and its argument; the loop over Pairs by an inductive invariant')
p('E02', 'Ids of a file: every object, shared style and link parent is found',
  'In a file parsed from text or imported, looking up an id gives the last object in document order with it, and null when there is none. The shared styles are exactly the styles with an id directly in a Document, the last of an id winning (when imported: of the objects found by id), and the link parents of a parsed file exactly its elements that may hold a Link or Icon, in order. A strict import fails exactly when two objects have the same id, and a text that is no KML gives no file. ClearIds clears the id of every object below an element and nothing else; RemapIds gives each object mapped its new id or clears it, and counts those.',
  ['inputs', 'histories'], 'for every document, imported tree and choice of ids, with duplicates at any place',
  'Which object an id leads to depends on all others in a document of any size; tests look up a few ids.',
  [E + 'kml_file.cc', E + 'kml_file.h', E + 'id_mapper.cc', E + 'id_mapper_internal.h', E + 'object_id_parser_observer.h', E + 'shared_style_parser_observer.h', E + 'get_link_parents.cc', E + 'get_link_parents.h'],
  [('ObjectIdParserObserver, SharedStyleParserObserver, GetLinkParentsParserObserver', E + 'kml_file.cc'), ('IdMapper, MapIds, ClearIds, RemapIds', E + 'id_mapper.cc')],
  'every observer, the id mapper and KmlFile constructor function; loops over maps by inductive invariants about an arbitrary entry')
p('E06', 'Splitting and inlining styles leaves the look of every feature unchanged',
  'SplitStyles moves each inline style of a feature (not a Document, not within an Update) without a styleUrl to the first Document, under an id no style before it has, and refers the feature to it; InlineStyles replaces each reference to a style of a Document before it with a copy without ids of its normal and highlight look, and takes such styles out of their Document. The resolved style of every feature is the same after as before (inlining: of features without an inline style of their own, whose references stay within the file). Nothing else changes: not the features, not what an Update says.',
  ['inputs'], 'for every document, with any ids on any styles',
  'Ids chosen by the author may collide with generated ones anywhere in the document; tests split documents without ids.',
  [E + 'style_splitter.cc', E + 'style_splitter_internal.h', E + 'style_inliner.cc', E + 'style_inliner_internal.h', E + 'style_resolver.cc'],
  [('StyleSplitter', E + 'style_splitter.cc'), ('StyleInliner', E + 'style_inliner.cc'), ('StyleResolver::CreateResolvedStyleSelector', E + 'style_resolver.cc')],
  'every function of both observers from any state of the parse, and CreateResolvedStyleSelector')
p('E04', 'A copy of an element equals the original and shares nothing with it',
  'Clone of any complex element gives a new tree of the same shape: every field that is set, every attribute, text, coordinate tuple, child, misplaced child and unknown element of the original and nothing else, in the same order, so that both are written as the same text. The original is left as it was, no element belongs to both trees, and the copy has no parent. A copy of nothing is nothing.',
  ['inputs'], 'for every element class and every tree',
  'Tests clone a handful of elements with a few fields each; a field, attribute or text lost in the copy of one class, or text given to the wrong element, goes unnoticed.',
  [E + 'clone.cc', D + 'serializer.cc', D + 'element.cc'],
  [('ElementReplicator, Clone', E + 'clone.cc')],
  'every event handler of the replicator from any state (any stack of open elements), and Clone; with the contracts of Serialize (D02) and AddElement (D03) the tree claim is the induction over the events')
p('E05', 'Merging sets what the source has, keeps the rest, shares nothing',
  'MergeFields sets every simple field, attribute and text set in the source in the target, coordinates replacing those of the target, and changes nothing else. MergeElements also handles each child of the source: it is merged into the first child of the same type the target had, and if there was none a copy is added to the target. The source is left as it was and shares no element with the target; without a source or target nothing happens. The children of an element, or all elements below it of a type, are listed once each, in document order.',
  ['inputs'], 'for every pair of trees',
  'Style resolution and updates rest on merging every combination of set and unset fields; tests merge a few pairs.',
  [E + 'merge.cc', E + 'find.cc'],
  [('FieldMerger, MergeFields, MergeElements', E + 'merge.cc'), ('GetChildElements, GetElementsById', E + 'find.cc')],
  'every event handler of the merger and of the finders, MergeFields, and MergeElements with both of its loops by inductive invariants; recursion against its own contract')
p('E03', 'Updates apply every operation, in order, to the object it names',
  'An Update is applied operation by operation in the order given, and each operation child by child; the object a child is about is the one of the file, as read or imported, with the id its targetId names, looked up through the id map if one is given, and a child without targetId, or one naming no object (or no entry of the map), is ignored. A Change merges the child into that object, whose id stays and which is left without targetId; a Create appends copies of the features of the child, in order, to that container; a Delete removes that feature from its container or the kml element. Everything else in the file, and the update itself, stays as it was.',
  ['inputs', 'histories'], 'for every file, update and id map',
  'Updates combine any operations with any targets; tests apply a handful of them.',
  [E + 'update.cc', E + 'update_processor.cc'],
  [('ProcessUpdate, ProcessUpdateWithIdMap', E + 'update.cc'), ('UpdateProcessor', E + 'update_processor.cc')],
  'every function of UpdateProcessor and both entry points, each loop by an inductive invariant over the handled children and an arbitrary object of the file')
p('V01', 'Coordinates: tuples are read one for one; any text is read safely',
  'A coordinates text of tuples separated by white space, each of two or three decimal numbers with a comma and any white space between them, gives exactly these tuples, in order: longitude, latitude and, if there is a third number, altitude, whatever the length of the numbers and the white space around them. They are appended to what was there before. Any other text, of any length and content, is read to its end, inside its bounds and with every step getting ahead.',
  ['inputs'], 'for every text',
  'Texts of coordinates come from every tool there is, with any spacing, precision and junk; tests parse a few.',
  [D + 'geometry.cc', B + 'string_util.cc', B + 'vec3.h'],
  [('Coordinates::ParseVec3, Coordinates::Parse', D + 'geometry.cc'), ('StringToDouble, IsDecimalDoubleString', B + 'string_util.cc')],
  'ParseVec3 (every skipping loop by an inductive invariant, on well-formed tuples and on any text), Parse and StringToDouble')
p('V02', 'Colours: channels, texts and numbers agree; any text is read safely',
  'A colour holds four independent channels: setting one changes that channel only, and the aabbggrr and aarrggbb numbers and texts read and written for it always agree with the channels. A text is read as the hex digits after leading white space and an optional #: the first 8 characters at most, anything that is not a hex digit counting as 0; no text, of any length or content, is read outside its bounds. Reading the text a colour is written as gives the same colour.',
  ['inputs'], 'for every colour value and every text of any length and content',
  'There are 2^32 colours and unbounded texts; tests use a handful of well-formed ones.',
  [B + 'color32.h', B + 'color32.cc'],
  [('channel accessors, get/set_color_argb/abgr', B + 'color32.h'), ('text to number', B + 'color32.cc')],
  'every function of Color32, for all 32-bit values and all texts; the loop over the digits by an inductive invariant')
p('V03', 'Dates: a dateTime text gives the calendar instant it names',
  'For every valid date and time from year 1000 to 9999, before or after 1970, the seconds since the epoch are those of the proleptic Gregorian calendar; the XSD dateTime, date and time texts of a parsed dateTime spell the same instant; a text that is not of an accepted form yields no date.',
  ['inputs'], 'for every date in the range and every text',
  'Leap years, century rules and times before the epoch are a matter of every date, not of the few in the tests.',
  [B + 'date_time.h', B + 'date_time.cc'],
  [('DateTime::GetTimeT, is_leap', B + 'date_time.cc'), ('DateTime::ParseXsdDateTime, GetXsdDateTime', B + 'date_time.cc')],
  'GetTimeT, ToTimeT, the text functions and the parsers, the year and month loops by inductive invariants; strptime/strftime at their C-library contract')
p('V04', 'Bounds and locations cover exactly the coordinates of a feature',
  'A bounding box grown by points, boxes, coordinates, geometries or features has exactly the extreme latitudes and longitudes of everything it was grown by (every point, line, ring, outer boundary of a polygon, model, nested geometry and folder; holes lie inside and are not looked at), contains each of them, and is left unchanged by something without coordinates, which is reported as such. The centre is the middle of the box, aligning a box to a quadtree gives a box of the quadtree that contains it, and the location of a feature is that of its model or point, or else the centre of its bounds.',
  ['inputs'], 'for every box, every coordinate list of any length, every geometry and feature tree',
  'Trees and coordinate lists are unbounded; tests use a few with one or two points.',
  [E + 'bbox.h', E + 'bbox.cc', E + 'location_util.cc', E + 'location_util.h', E + 'get_link_parents.h'],
  [('Bbox', E + 'bbox.h'), ('GetCoordinatesBounds, GetGeometryBounds, GetFeatureBounds, GetFeatureLatLon', E + 'location_util.cc')],
  'every function of Bbox and location_util for every class of geometry and feature, lists of any length by inductive invariants, nesting by induction over the contracts')
p('V05', 'Regionator: each region splits into its four quadrants, each visited once',
  'The child regions made for a region are its north-west, north-east, south-west and south-east quarters: together they cover it exactly, without overlap, with its altitudes and lod kept. Regionating asks the handler about a region once, descends into its four children exactly when there is data, and for each region with data and a feature saves one file under a name of its own, after those of its children, that holds the feature and a network link to the file of each child that had data.',
  ['inputs', 'histories'], 'for every region, every depth and every handler',
  'Tests run one small quadtree with a fixed handler; coverage and numbering must hold at every level and for any answers of the handler.',
  [G + 'regionator.cc', G + 'regionator_util.cc', G + 'regionator_qid.h', G + 'region_handler.h'],
  [('CreateChildRegion', G + 'regionator_util.cc'), ('Regionator::_Regionate, Recurse, RegionFilename', G + 'regionator.cc'), ('Qid', G + 'regionator_qid.h')],
  'the region arithmetic (to the 15 digits a copy keeps), Qid and the recursion, against a contract for an arbitrary handler')
p('V06', 'Texts: splitting, expanding, comparing, and numbers and booleans as texts',
  'Splitting a text at a separator gives the parts between its successive occurrences, in order, one more than there are occurrences, appended to the list; expanding replaces every occurrence of every key between its marks by its value, key after key in order of the keys, never a part of what was just put in. Ending with, and being the same but for case, are decided over the whole text; white space at the start is exactly what is skipped. Booleans and decimal numbers of up to 15 digits read back from the texts they are written as; the text of a boolean is true if, after white space, it starts with true or 1. CSV data is split into its lines (line ends are CR, LF or runs of them) and each line into its columns, quoted ones with a doubled quote standing for one.',
  ['inputs'], 'for every text, separator, set of keys and number',
  'Texts are unbounded and the awkward ones (overlapping separators, keys inside values, quotes at the end) are rarely in tests.',
  [B + 'string_util.cc', B + 'string_util.h', B + 'csv_splitter.cc'],
  [('SplitStringUsing, CreateExpandedStrings, SplitQuotedUsing', B + 'string_util.cc'), ('FromString, ToString, StringEndsWith, StringCaseEqual', B + 'string_util.cc'), ('CsvSplitter', B + 'csv_splitter.cc')],
  'SplitStringUsing, CreateExpandedStrings (nested loops), StringEndsWith, StringCaseEqual, SkipLeadingWhitespace, FromString and CsvSplitter for all texts; the columns of one line (SplitQuotedUsing) are checked on random lines only (bounded)')
p('V07', 'Attributes: unique names; every operation changes those it is about, no other',
  'A set of attributes maps each name to one value. Made from a list of names and values it has the last value given for each name and no others, whatever is left over at the end of the list; setting, cutting and merging change exactly the named ones (merging: those of the other set, to its values) and leave the rest; finding a value or the name of a value changes nothing and answers for the current contents. A copy has the same attributes and is independent. Splitting by a prefix moves exactly the names prefix:rest to a new set, as rest with the same value, and gives no set if there are none.',
  ['inputs', 'histories'], 'for every set of attributes, every name, value and prefix',
  'Sets are unbounded and names may be prefixes of each other; tests use a few attributes.',
  [B + 'attributes.cc', B + 'attributes.h'],
  [('Attributes', B + 'attributes.cc')],
  'every operation for an arbitrary set and an arbitrary name; loops over sets of any size by inductive invariants; Attributes::Serialize is part of D06; Create from a C array is checked by the companion only')
p('E07', 'Links are found, resolved and fetched as the KML they stand in says',
  'GetLinks gives the text of every href, styleUrl, targetHref of an Alias and schemaUrl of a parsed file in document order, GetRelativeLinks those with a path and no scheme; Href takes a link apart into scheme, net location, path and fragment. A target is resolved against the url of the file it stands in (a model\'s targets against its geometry); what is fetched is the url without query and fragment when it leads into a KMZ, else the url itself. A target in a KMZ is the entry of that path (the KML file if there is no path); if there is none, the file of that name beside the KMZ, and nothing further: fetching always ends. A KML file fetched is kept in the cache under the url it came from, which it knows together with its cache.',
  ['inputs'], 'for every link, every base url and any contents of the network and of the archives',
  'Dead links, links into archives beside archives and urls with fragments come in unbounded combinations; tests follow a few good ones.',
  [E + 'href.cc', E + 'href.h', E + 'get_links.cc', E + 'get_links.h', E + 'kml_uri.cc', E + 'kml_uri_internal.h', E + 'kmz_cache.cc', E + 'kml_cache.cc', B + 'uri_parser.cc'],
  [('KmlUri', E + 'kml_uri.cc'), ('KmzCache::DoFetchAndReturnUrl', E + 'kmz_cache.cc'), ('KmlCache', E + 'kml_cache.cc'), ('GetLinksParserObserver', E + 'get_links.h'), ('Href', E + 'href.cc')],
  'every function between a link and its data; the URI grammar and resolution algorithm of the uriparser library are assumed (functions of the texts), as is the network')
p('F01', 'KMZ archives: names listed, entries read and written as they are, safely',
  'For any bytes of less than 2 GB: opening takes what begins as a ZIP file and nothing else; the names of its entries are listed in order; an entry of a listed name that is not empty, has a name of less than 256 characters and is within the size limit is read as exactly its data, while damaged data are never handed out and no read leaves the bytes given. The KML file of an archive is its first entry whose name ends in .kml. An archive that is written holds exactly the data added, under the paths given; absolute and upward paths are refused; AddFileList adds every file below the base once under its normalised path and counts those left out.',
  ['inputs'], 'for every sequence of bytes, every path and every list of files',
  'Archives come from the network: any bytes. Tests open a handful of well-formed ones.',
  [B + 'zip_file.cc', B + 'contrib/minizip/iomem_simple.c', E + 'kmz_file.cc'],
  [('ZipFile', B + 'zip_file.cc'), ('mem_read, mem_seek', B + 'contrib/minizip/iomem_simple.c'), ('KmzFile', E + 'kmz_file.cc')],
  'every function of ZipFile and KmzFile and the memory stream below minizip; minizip itself and zlib are assumed to satisfy their documented interface (the companion runs them on generated and damaged archives)')
p('F02', 'Network cache: never over its limit, discards the oldest, answers its url only',
  'The cache returns for a url exactly the item fetched and saved for that url and not removed since, fetches only when there is none, and caches nothing when the fetch fails or its data make no item. It never holds more entries than its limit (of at least one): saving into a full cache removes exactly one entry, the one saved first; a second save for the same url is refused and changes nothing.',
  ['inputs', 'histories'], 'for every cache state, every url and every order of operations',
  'Histories of saves, deletes and fetches are unbounded; tests run one or two short ones.',
  [B + 'net_cache.h', E + 'kml_cache.cc', E + 'kmz_cache.cc'],
  [('NetCache<T>', B + 'net_cache.h')],
  'every operation of the cache from every state satisfying the invariant; finding the oldest by an inductive loop invariant')
NA = []

if __name__ == '__main__':
    with open(R + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                                    anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']], observe_at=x['observe'], hook_needed=None))) + '\n')
        for i, t, s, r in NA:
            pass
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
             hooks=dict(guard='none', enable='no hooks: the checks compile /repo\'s sources as they are', source_commits=[]),
             checks=[dict(property=x['id'], quick_cmd='python3-vt check.py %s quick' % x['id'], thorough_cmd='python3-vt check.py %s thorough' % x['id'],
                          technique=TECH + 'failing obligations are replayed on a native sanitizer build', level=x['level'], level_note=x['note'],
                          evidence_file='evidence/%s.json' % x['id']) for x in P],
             not_applicable=[], notes='see DESIGN.md')
    json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
    for x in P:
        assert len(x['title']) <= 80, x['title']
        assert x['statement'].count('. ') <= 3, x['id']
