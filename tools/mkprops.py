"""Writes properties.jsonl (kept as a script so that edits stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

D='ebmlite/decoding.py';E='ebmlite/encoding.py';C='ebmlite/core.py';U='ebmlite/util.py';X='ebmlite/xml_codecs.py';T='ebmlite/threaded_file.py';TL='ebmlite/tools/utils.py'

p('C01','Element size descriptors round-trip exactly and are minimal',
 "For every element size that EBML can express (0 to 2**56-2) and every descriptor length 1 to 8, encoding the size either yields exactly that many bytes, which the size reader decodes to the same size and consumes entirely, or raises ValueError because the size does not fit; without an explicit length the shortest descriptor that can hold the size is produced. A known size is never encoded as the reserved 'unknown' (all ones) pattern, and the reader reports 'unknown' exactly for that pattern.",
 ['inputs'],'all sizes 0..2**56-2, all descriptor lengths (None, -1, 1..8 and invalid ones), all descriptor byte strings of 1..8 bytes',
 'Tests encode four sizes at two lengths and decode a handful; the boundary at every 2**(7n)-1 and the explicit-length overflow cases are not sampled.',
 [E,D],[('getLength thresholds','%s:getLength'%E),('length marker and range','%s:encodeSize'%E),('marker decoding, all-ones detection','%s:decodeIntLength, readElementSize'%D)],observe=['encodeSize','getLength','readElementSize','decodeIntLength'])
p('C02','Element IDs round-trip, and malformed IDs are rejected',
 "Every valid EBML element ID (1 to 4 bytes, length given by the marker bit of its first byte) encodes to its own big-endian bytes, and the ID reader decodes those bytes to the same ID and length, consuming exactly them. An ID whose first byte announces more than 4 bytes is rejected with IOError, and an explicit encoding length outside 1..4, or too short for the ID, raises ValueError.",
 ['inputs'],'all IDs, all first bytes, all byte strings of up to 4 bytes, all explicit lengths',
 'Tests read and write fewer than a dozen IDs; 2**28 IDs over four classes cannot be sampled.',
 [E,D],[('encodeId length check','%s:encodeId'%E),('marker decoding','%s:decodeIDLength, readElementID'%D)],observe=['encodeId','readElementID','decodeIDLength'])
p('C03','Unsigned integer payloads round-trip for every value and width',
 "Encoding an integer from 0 to 2**64-1 yields its big-endian bytes, the fewest possible but at least one when no length is given and exactly the given number, zero-padded on the left, otherwise; reading those bytes (0 to 8 of them) returns the same integer. A value that does not fit the given length or 64 bits, or is negative, raises ValueError, and a non-number raises TypeError: nothing is ever truncated or wrapped.",
 ['inputs'],'all integers, all lengths None and 0..8 and beyond, all payloads of 0..8 bytes',
 'Tests sample 256 values at four widths.',
 [E,D],[('pack/strip/pad','%s:encodeUInt'%E),('pad/unpack','%s:readUInt'%D)],observe=['encodeUInt','readUInt','UIntegerElement.encodePayload','UIntegerElement.parse'])
p('C04','Signed integer payloads round-trip for every value and width',
 "Encoding an integer from -2**63 to 2**63-1 yields its big-endian two's complement bytes, the fewest that keep the sign (at least one) when no length is given and exactly the given number, sign-extended, otherwise; reading those bytes (0 to 8 of them) returns the same integer. A value that does not fit the given length raises ValueError and one outside 64 bits raises an error: the sign and magnitude are never altered.",
 ['inputs'],'all integers, all lengths None and 0..8 and beyond, all payloads of 0..8 bytes',
 'Tests sample 256 values at four widths; sign-boundary values at 3, 5, 6, 7 bytes are not reached.',
 [E,D],[('pack/strip/sign guard/pad','%s:encodeInt'%E),('sign extension','%s:readInt'%D)],observe=['encodeInt','readInt','IntegerElement.encodePayload','IntegerElement.parse'])
p('C05','Floating point payloads round-trip exactly',
 "An 8-byte float payload holds the IEEE-754 big-endian double and reads back bit for bit; a 4-byte one holds the nearest single and reads back as exactly that single; without an explicit length, encoding then reading returns an equal number (NaN for NaN). A finite value beyond the range of a single raises an error when four bytes are asked for. Only lengths 0, 4 and 8 are accepted: any other length raises ValueError when encoding and IOError when reading, and an empty payload reads as 0.0.",
 ['inputs'],'all doubles including infinities, NaN, subnormals and signed zero; all 4- and 8-byte payloads; all lengths',
 'Tests check five values at two widths.',
 [E,D],[('length dispatch','%s:encodeFloat'%E),('length dispatch','%s:readFloat'%D)],observe=['encodeFloat','readFloat','FloatElement.encodePayload','FloatElement.parse'])
p('C06','Dates round-trip to the microsecond',
 "A naive datetime whose distance from 2001-01-01 fits in 64 bits of nanoseconds (years 1709 to 2292) encodes to exactly 8 bytes, the big-endian signed count of nanoseconds, and reads back as the identical datetime; any 8-byte payload reads as the instant it denotes, rounded down to the microsecond. A length other than 8 raises ValueError when encoding and IOError when reading, an unrepresentable instant raises an error, and a value that is neither None nor a datetime raises TypeError.",
 ['inputs'],'all naive datetimes at microsecond resolution before and after 2001; all 8-byte payloads; all lengths',
 'Tests check one or two dates, all after 2001.',
 [E,D],[('delta to nanoseconds','%s:encodeDate'%E),('nanoseconds to datetime','%s:readDate'%D)],observe=['encodeDate','readDate','DateElement.encodePayload','DateElement.parse'])
p('C07','Text payloads keep their characters and their length',
 "Encoding a string for an ASCII element maps every printable ASCII character to itself and any other to one '?', encoding for a UTF-8 element gives its UTF-8 bytes; reading such a payload back, if it was not cut, with or without NUL padding, returns the text up to the first NUL; a byte of an ASCII payload that is not ASCII is read as U+FFFD, not refused. With an explicit length the result is exactly that many bytes (cut, or padded on the right with NUL); without one it has no padding; a value that is not a string or bytes raises TypeError.",
 ['inputs'],'all strings and byte strings of any length, all explicit lengths, all payloads',
 'Tests use six short strings and one explicit length (2).',
 [E,D],[('replace, translate, cut, pad','%s:encodeString, STRING_CHARACTERS'%E),('utf-8, cut, pad','%s:encodeUnicode'%E),('NUL handling','%s:readString, readUnicode'%D)],observe=['encodeString','encodeUnicode','readString','readUnicode'])
p('C08','Binary and void payloads are exact, padded, never cut',
 "Encoding binary data returns the data unchanged (a str as its UTF-8 bytes, None as nothing), padded on the right with NUL to an explicit length; data longer than the explicit length raises ValueError instead of being cut, and other types raise TypeError. A void payload is exactly the requested number of 0xFF bytes, and reading a binary element returns exactly the bytes of its payload.",
 ['inputs'],'all byte strings, strings and lengths',
 'Tests use three byte strings and one length.',
 [E,C],[('pad or raise','%s:encodeBinary'%E),('void filler','%s:VoidElement.encodePayload'%C),('payload read','%s:Element.parse'%C)],observe=['encodeBinary','BinaryElement.encodePayload','VoidElement.encodePayload','Element.parse'])
p('C09','Every encoded element declares exactly the payload it carries',
 "Encoding a single value with any element type yields the element's ID, then a size descriptor, then the payload, and the declared size is exactly the number of payload bytes that follow, or 'unknown' only when an infinite master element was asked for; explicit payload and size-descriptor lengths, given in the call or fixed by the schema, are honoured or an error is raised. A list of values encodes as the concatenation, in order, of the individual encodings with the same options and is refused with ValueError for an element type not marked as multiple; a non-master element refuses to be infinite.",
 ['inputs','configurations'],'all element types and schemas, all values, all explicit lengths and descriptor lengths, lists of any length',
 'Tests encode one generic element and one master with one child.',
 [C,E],[('header assembly','%s:Element.encode'%C),('master special cases','%s:MasterElement.encode'%C)],observe=['Element.encode','MasterElement.encode'])
p('C10','Master and document encoding keeps every item, in order',
 "Encoding a dictionary or a list of name/value pairs as a master element or a document produces the encodings of all the given items, complete and in the given order, and nothing else except, on request, one EBML header built from the schema's default values written before them; None encodes as an empty master. A name or ID that is not in the schema raises TypeError instead of being skipped.",
 ['inputs','configurations'],'all payload trees of any size and depth, dictionaries, pair lists, lists of dictionaries; all schemas; headers on and off',
 'Tests encode single-item dictionaries.',
 [C],[('item loop','%s:MasterElement.encodePayload'%C),('document loop and headers','%s:Document.encode, Document._createHeaders, Schema.encode, Schema.encodes'%C)],observe=['MasterElement.encodePayload','Document.encode','Schema.encode','Schema.encodes'])
p('C11','A parsed element describes exactly the bytes it was read from',
 "Parsing at any position of a stream that holds a well-formed header yields an element whose type is the one the schema defines for the ID found there (or an unknown element carrying that ID when the schema defines none), whose offset is that position, whose payload starts right after the header, and whose size is the declared one; the position reported for the next element is the end of its payload. Its raw data are exactly the stream's bytes from its offset to its end, its raw value exactly its payload bytes, wherever the stream is positioned when they are asked for.",
 ['inputs','configurations','histories'],'all byte strings, all positions, all schemas, header lengths 2..12, all interleavings of seeks',
 'Tests parse one child element of one hand-written master.',
 [C,D],[('header parse','%s:MasterElement.parseElement'%C),('raw access','%s:Element.getRaw, Element.getRawValue'%C)],[('offset, payloadOffset, size','location of the element','%s:Element'%C)],observe=['MasterElement.parseElement','Element.getRaw','Element.getRawValue'])
p('C12','Children tile their parent: no byte skipped, overlapped or lost',
 "Iterating over a master element of known size yields elements of which the first starts where the parent's payload starts and each following one exactly where the previous one ended, until the end of the payload (or of the data) is reached; iterating over a document does the same over its root level up to the end of the data. Every step advances by at least two bytes, so iteration ends on any finite input, and length, value list and indexing agree with the iteration.",
 ['inputs','configurations'],'all documents, well-formed or not, any number of children and nesting',
 'Tests iterate one master holding one child and compare a few sample files with themselves.',
 [C],[('cursor loop','%s:MasterElement.__iter__, Document.__iter__'%C),('counting and indexing','%s:MasterElement.__len__, value, __getitem__; Document.__len__, __getitem__'%C)],observe=['MasterElement.__iter__','Document.__iter__','len','value','indexing'])
p('C13','Unknown-size masters end exactly at the first foreign element',
 "A master element of unknown size extends from its payload start over every element that the schema lists as its child or as global, and ends exactly where the first other element starts, or at the end of the data; its size, its length and its children are the same as those of a master with the same children and an explicit size. A master with a declared size is never re-measured: the declared size is reported as is.",
 ['inputs','configurations'],'all documents and schemas with unknown-size masters, nested or not, any number of children',
 'One sample file pair exercises one unknown-size layout.',
 [C],[('size scan','%s:MasterElement.size'%C),('child validity','%s:MasterElement._isValidChild'%C)],[('_size','cached size','%s:MasterElement'%C)],observe=['MasterElement.size','len','iteration'])
p('C14','Values do not depend on caching, access order or stream position',
 "The value of an element (other than a void one, whose bytes carry no meaning) is the decoding of its payload bytes, whether it was read early (precached) or on demand, first or again, before or after caches were cleared, and wherever earlier accesses left the stream. Clearing caches never changes a value read later and reports how many cached values it cleared.",
 ['histories','inputs','configurations'],'all sequences of value, iteration, len, raw access and gc calls on any elements sharing one stream; all precache settings',
 'Tests read a value once or twice on one element; interleavings are not explored.',
 [C],[('lazy read','%s:Element.value, MasterElement.value'%C),('precache','%s:MasterElement.parseElement'%C),('gc','%s:Element.gc, MasterElement.gc'%C)],[('_value','cached value or None','%s:Element'%C)],observe=['Element.value','MasterElement.value','gc'])
p('C15','Encoding then parsing returns the same tree',
 "For any schema-conforming tree of elements, encoding it as a document and parsing the bytes yields the same elements in the same order at every level, each with the ID, type and value that was encoded.",
 ['inputs','configurations'],'all trees over all eight element types, any depth and width, any schema',
 'Tests never encode a tree of more than one element and parse it back.',
 [C,E,D],[('encoding','%s:MasterElement.encodePayload, Element.encode'%C),('parsing','%s:MasterElement.parseElement, __iter__, value'%C),('leaf codecs','%s, %s'%(E,D))],observe=['Schema.encodes','Schema.loads'])
p('C16','Schema tables stay coherent under any sequence of definitions',
 "After any sequence of element definitions, every ID maps to one class carrying that ID, every name to the class carrying that name, both tables hold the same classes, and a parent lists the ID of each element defined under it; repeating a definition returns the existing class. A definition that lacks a required attribute or contradicts an earlier one (another ID, another name, an unrelated type or a differing attribute) raises an error and leaves the schema's tables unchanged.",
 ['histories','inputs'],'all sequences of addElement calls / schema definitions, with any IDs, names, base types, parents and attributes',
 'Tests add one element to one schema.',
 [C],[('definition and redefinition','%s:Schema.addElement'%C),('lookup','%s:Schema.__getitem__, __contains__, get'%C)],[('elements, elementsByName, elementInfo, globals, children','schema tables','%s:Schema'%C)],observe=['Schema.addElement','Schema[...]','in'])
p('C17','Schema loading searches in order and caches by file',
 "Loading a schema by bare name uses the first directory of the search list (the given paths, else the global list) that contains the file, after the working directory; a name with a directory part is never searched for; a missing file raises IOError and caches nothing. Loading or parsing the same name again returns the very same schema object unless a reload is asked for, which always returns a new object that later calls with that name then return.",
 ['histories','configurations'],'all search lists, file layouts and sequences of load/parse calls with and without reload',
 'Tests load two bundled files from one layout.',
 [C],[('search and cache','%s:loadSchema, parseSchema, _expandSchemaPath'%C)],[('SCHEMATA','cache keyed by name and path','%s'%C)],observe=['loadSchema','parseSchema'])
p('C18','Binary-to-text codecs lose nothing, however they are formatted',
 "For the base64 and hex codecs, decoding the text produced from any bytes returns those bytes, for every column count, byte width (at least 1), offset column, starting offset and indentation of ASCII white space, whether the text was returned or written to a stream; writing to a stream writes the text that would have been returned and reports its length. Decoding to a stream writes the bytes that would have been returned and reports their count.",
 ['inputs','configurations'],'all byte strings, all cols (None, 0, 1..), widths, offsets on/off, start offsets and white-space indents',
 'One 1024-byte string with default formatting is tested.',
 [X],[('layout loops','%s:Base64Codec.encode, HexCodec.encode'%X),('parsers','%s:Base64Codec.decode, HexCodec.decode'%X)],observe=['Base64Codec','HexCodec'])
p('C19','XML export and import preserve every element',
 "Converting an element or document to XML and back to EBML yields elements with the same IDs, in the same order and nesting, with the same values, for every element type including dates, floats (infinities and NaN too), non-ASCII text, empty, void (keeping their size) and unknown elements (if their IDs are exported), whichever optional attributes are exported; the export writes exactly those asked for, at every depth. Importing honours the size-descriptor length asked for an element, raising ValueError if the size does not fit it, rejects an element that is not in the schema unless unknown elements are allowed and an ID is given, at any depth, and changes nothing outside the output stream.",
 ['inputs','configurations','histories'],'all element trees with XML-representable text, all export flag combinations and binary codecs other than ignore, all import options',
 'Tests convert two sample files that contain no dates, no non-ASCII text, no unknown elements, and compare only IDs and sizes of masters.',
 [U,X,C],[('export','%s:toXml'%U),('import','%s:xmlElement2ebml, xml2ebml, loadXml'%U)],observe=['toXml','xmlElement2ebml','xml2ebml','loadXml'])
p('C20','Generated and validated IDs obey the EBML ID classes',
 "ID validation accepts an integer exactly when it lies in one of the four class ranges (0x81-0xFE, 0x407F-0x7FFE, 0x203FFF-0x3FFFFE, 0x101FFFFF-0x1FFFFFFE) and raises ValueError for every other integer. ID generation returns distinct, increasing IDs of the requested class that lie within the requested limits (both included), are used neither by the schema nor by the exclusion list, at most as many as asked for, and fewer only when no further such ID exists; an unknown class raises KeyError.",
 ['inputs','configurations'],'all integers; all schemas, classes, limits, exclusions and counts',
 'Tests try the boundaries and one midpoint per class, and three generator calls.',
 [U,D],[('range check','%s:validateID'%U),('search','%s:createID'%U)],observe=['validateID','createID'])
p('C21','Traversals visit every element once, in document order',
 "The flat iterator yields every element below its start in depth-first document order, exactly once, and nothing below the requested depth; the start itself is not yielded and no limit means all levels. Verification of a byte string reads every element at every level (a header cut short by the end of the data counts as the end), returns True only if all of them are defined in the schema and readable, and raises otherwise; dumping keeps every element of a type marked multiple, in order.",
 ['inputs','configurations'],'all trees of any depth and width, all depth limits',
 'Tests only compare two flat iterations with each other and verify one element.',
 [U,C],[('recursion','%s:flatiter'%U),('crawl','%s:Schema.verify'%C),('dump','%s:MasterElement.dump'%C)],observe=['flatiter','Schema.verify','dump'])
p('C22','A thread-aware file isolates threads and never writes',
 "Every operation a thread performs on a thread-aware file acts on that thread's own stream only, as it would on a plain file: it opens one on first use, its position is unaffected by other threads, and closing affects the calling thread alone and leaves the others' streams open and usable. No mode that could create or modify the file is accepted, however it is passed, and every writing operation (write, writelines, truncate) raises IOError.",
 ['schedules','histories','inputs'],'all sequences of operations by any number of threads (each operation taken as atomic), all modes',
 'One single-threaded read of a sample file is tested; closing is never tested.',
 [T],[('per-thread stream','%s:ThreadAwareFile.getThreadStream'%T),('close and cleanup','%s:close, cleanup, closeAll'%T),('mode check','%s:__init__'%T)],[('threads','stream per thread ident','%s:ThreadAwareFile'%T)],observe=['ThreadAwareFile methods'])
p('C23','Command line tools never overwrite a file unless told to',
 "A conversion tool opens its output for writing only if that path does not exist or clobbering was requested, and only after the input exists and the schema loaded; otherwise it exits with a non-zero status and leaves every file as it was. Without an output argument nothing is opened for writing.",
 ['inputs','configurations'],'all combinations of existing and missing input, schema and output, with and without clobber, text and binary output',
 'Tests always pass --clobber.',
 [TL],[('guards','%s:load_files'%TL)],observe=['ebml2xml','xml2ebml','view_ebml'])
p('C24','Documents expose their header and close only what they opened',
 "A document whose data start with an EBML header (ID 0x1A45DFA3) exposes the header's values as its info, type and version whether or not the header is listed among the root elements, and lists it as the first root element exactly when asked to. Closing a document, or leaving its context, closes the stream if the document opened it from a file name and leaves a caller-supplied stream open; an object lacking read, tell or seek is refused with TypeError.",
 ['inputs','configurations'],'all documents with and without header, headers on and off, file names, paths and streams at any start position',
 'Tests load one file both ways.',
 [C],[('constructor and close','%s:Document.__init__, close, __enter__, __exit__'%C)],[('payloadOffset','start of the listed roots','%s:Document'%C),('_ownsStream','did the document open the stream','%s:Document'%C)],observe=['Schema.load','Document.info','Document.close'])
p('C25','Equality of elements and schemata means what it says',
 "Two elements of one type are equal exactly if they have the same ID, offset, payload size and schema and, for numbers, dates and text, the same value (whether or not it was read before); two unknown elements exactly if they have the same ID and value. Elements that differ in type, ID, offset, size or schema are never equal, and an element compared with any other object is unequal to it; comparing raises nothing but what reading an unreadable value raises, and != is the negation. Two schemata are equal exactly if the attributes of all their element definitions match, so parsing one definition twice gives equal schemata whose elements compare equal.",
 ['inputs','histories'],'all pairs of elements of any types, places and values, read or unread, of the same or different schemata; all pairs of schemata; comparisons with foreign objects',
 'Tests compare a handful of equal elements and never unequal ones that differ in one respect only.',
 [C],[('base criteria','%s:Element.__eq__'%C),('value criteria','%s:IntegerElement.__eq__, FloatElement.__eq__, StringElement.__eq__'%C),('unknown elements','%s:UnknownElement.__eq__'%C),('definitions','%s:Schema.__eq__'%C)],[('elementInfo','raw attributes by ID','%s:Schema'%C)],observe=['==','!='])
p('C26','Listing the schemata shows what loading would find',
 "Listing the schemata gives, for every name ending in .xml (in any case) of a readable XML file with the root element Schema that lies directly in a directory of the search list (the given paths, else the global list), all such files of that name in the order of the search, and nothing else; directories and modules that do not exist and files that cannot be parsed, for whatever reason, are passed over (module objects have no relative paths and are left out when those are asked for). If all files of a name in the search list are schemata, the first one listed is the one that loading the bare name takes from it. Listing and printing change neither the global search list nor the list of paths given.",
 ['inputs','configurations'],'all search lists (directories, module names, module objects, files, missing ones), all directory contents, absolute and relative paths',
 'Tests list the two bundled schemata.',
 [C,U],[('search','%s:listSchemata'%C),('print','%s:printSchemata'%U)],observe=['listSchemata','printSchemata'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
