import json
import os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    src="src/pynmeagps/"
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[src+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
M="nmeamessage.py";R="nmeareader.py";H="nmeahelpers.py";S="socketwrapper.py"
T=["nmeatypes_get.py","nmeatypes_get_prop.py","nmeatypes_set.py","nmeatypes_set_prop.py","nmeatypes_poll.py","nmeatypes_poll_prop.py"]

p("C01","Parsing a sentence and serializing it again is byte exact",
"For every well formed NMEA sentence ($, address, comma separated fields, *, two hex digits, CRLF), given as bytes or as str, in any message mode and with any validation setting that accepts it, the parsed message serializes to exactly the bytes it came from. Its talker, msgID, payload (list of raw field strings) and checksum are exactly those of the sentence. This holds for standard, proprietary, user-defined and unknown message types, with empty, omitted, malformed-but-accepted or surplus fields and with non-ASCII (UTF-8) text.",
["inputs","configurations"],"all well formed sentences x msgmode x validate x userdefined, str and bytes input",
"The tests compare serialize() with the source for a few dozen logged sentences; field contents, lengths, surplus fields and non-ASCII text are not varied.",
[R,M,H],[("sentence split",f"{H}:get_parts"),("raw payload kept",f"{M}:_do_attributes"),("reassembly",f"{M}:serialize")],["NMEAReader.parse","NMEAMessage.serialize","NMEAMessage.payload"])

p("C02","Every generated message carries the correct checksum and framing",
"Every message created without an explicit checksum, from a payload list or from keyword attributes, known or unknown, reports as checksum the two upper case hex digits of the XOR of all bytes (UTF-8 encoding) between $ and *, and serializes as $, talker, msgID, each payload field preceded by a comma, *, that checksum, CRLF. The stand-alone checksum helpers return that same value for the same content. The serialized bytes are therefore accepted by a parser that validates checksums.",
["inputs","configurations"],"all talkers, msgIDs, payload lists and keyword attribute sets, in GET, SET and POLL mode, including non-ASCII text",
"Tests check a handful of constant messages; none generates messages of unknown type or non-ASCII content, where the checksum used to be None or wrong.",
[M,H],[("checksum",f"{H}:calc_checksum, generate_checksum"),("framing",f"{M}:serialize")],["NMEAMessage.serialize","NMEAMessage.checksum","calc_checksum","generate_checksum"])

p("C03","With checksum validation on, a corrupted sentence never becomes a message",
"With checksum validation on (the default), a sentence whose checksum field is not the XOR of its content never yields a parsed message: parsing raises NMEAParseError, or yields no message if the sentence has become malformed. The check itself is exact: the correct checksum is accepted in upper or lower case hex, anything else in its place (including an empty, shortened, lengthened or numerically equal but differently written checksum) is rejected. With checksum validation off, a wrong checksum is accepted and kept unchanged.",
["inputs","fault_sequences","configurations"],"all sentences, all single byte substitutions, all checksum strings (ASCII; $, CR and LF around a sentence are not part of it), all settings of validate",
"Tests reject one or two sentences with a wrong checksum; they do not try every position, every wrong value, nor checksum-like strings.",
[R,H],[("checksum comparison",f"{R}:parse"),("checksum calculation",f"{H}:calc_checksum")],["NMEAReader.parse","NMEAReader.read"])

p("C04","Every field of every defined message is decoded as published",
"For every published message definition (standard and proprietary, received, command and query), a parsed sentence presents each field under its published attribute name, in sentence order, with the value its published type prescribes: text and hex fields verbatim, decimals as float, integers as int, positions, dates and times as typed values, and an empty or unintelligible position, date or time and an empty number as an empty string. Published fields which the sentence does not contain have no attribute, surplus fields add none, and neither disturbs the other fields. A number field containing something other than a number is reported as NMEATypeError.",
["inputs","configurations"],"all definitions x all field values (valid, empty, malformed) x all sentence lengths x hemispheres",
"Tests parse one or two sample logs per message family; most definitions, empty and truncated variants and unusual values are never decoded.",
[M]+T,[("definition tables","nmeatypes_*.py"),("field to attribute walk",f"{M}:_set_attribute_single"),("type conversion",f"{M}:str2val")],["NMEAReader.parse","attributes of NMEAMessage"])

p("C05","Repeating groups map to indexed attributes, exactly as many as received",
"In a message with a repeating group, the k-th occurrence's fields appear as attributes suffixed _01, _02, ... (_100 and so on beyond 99) in order, as many as the sentence states (fixed count, count field) or, for indeterminate groups, as many complete ones as it contains; fields after a group are decoded from the position following its last occurrence. If the sentence ends within a counted group, exactly the received fields have attributes. A count field larger than what the sentence contains costs no more work and no more memory than the sentence itself.",
["inputs"],"all messages with repeating groups x number of occurrences 0..n x stated counts (true, too small, too large, absurd) x truncation points",
"Tests hold one sample per grouped message with a typical count; truncated, inconsistent and large counts are not tested (a large count used to hang the parser).",
[M,H]+T[:4],[("group walk",f"{M}:_set_attribute_group"),("indeterminate count",f"{M}:_calc_num_repeats"),("generated count",f"{H}:groupsize")],["NMEAReader.parse","NMEAMessage constructor"])

p("C06","Messages generated from keyword attributes parse back to those attributes",
"A message created from keyword attributes carries every supplied attribute in its published position with its published format (numbers in plain decimal notation), and every other published attribute with a nominal value for its type (zero, blank, current date/time, N/E, or the Quectel R/W/OK status), none missing and none added; hemisphere letters of positions follow the sign of the position instead. Parsing its serialized form in the same mode gives back the supplied values (to the precision of the sentence format), the same identity, and a message that serializes to the same bytes. Where a payload list is given, attribute keywords given besides it are ignored.",
["inputs","configurations"],"all definitions of all modes x all subsets of attributes x all values x number of group occurrences x standard and high precision",
"Tests build a dozen specific messages; subsets of attributes, groups, edge values and the whole proprietary table are not covered.",
[M,H]+T,[("keyword to payload",f"{M}:_set_attribute_single"),("value formatting",f"{M}:val2str"),("nominal values",f"{M}:nomval"),("group size",f"{H}:groupsize")],["NMEAMessage constructor","NMEAMessage.serialize","NMEAReader.parse"])

p("C07","Hemisphere letters and the sign of latitude and longitude always agree",
"A parsed latitude (longitude) followed by its N/S (E/W) field is negative exactly when that field is S (W), and otherwise non-negative, whatever the magnitude, sentence type or number of positions in the sentence. A generated message carries the unsigned magnitude, and S (W) exactly when the supplied signed value is negative, else N (E), so that the sign survives a round trip. A direction letter that does not belong to a position (e.g. of a variation or deviation) is passed through unchanged and affects no position.",
["inputs","configurations"],"all definitions with positions and/or direction fields x all magnitudes x all letters (also empty or unexpected) x parse and generate",
"Tests check signs on a few GGA/RMC/GLL samples; messages with differently named or several positions had the wrong sign.",
[M]+T,[("sign from direction",f"{M}:_set_attribute_single"),("direction from sign",f"{M}:_set_attribute_single")],["NMEAReader.parse","NMEAMessage constructor"])

p("C08","Latitude and longitude fields have the right format, precision and value",
"A generated latitude is ddmm.mmmmm and a longitude dddmm.mmmmm with exactly 5 decimals (7 in high precision mode), zero padded, unsigned, with minutes below 60, and represents the supplied degrees to within half a unit of the last decimal for every position on Earth. A received position field of any number of decimals is converted to degrees plus minutes/60 to within 1e-9 degrees, and converting it back reproduces a 5 or 7 decimal field. An empty or malformed position field gives an empty string, never an exception.",
["inputs","configurations"],"all degrees in [-180, 180] including values within rounding distance of a whole minute or degree, both axes, both precision modes; all field strings",
"Tests use a few coordinates; values which round up to 60 minutes (ddd2dmm) lie in narrow bands that no sample hits.",
[H,M],[("degrees to field",f"{H}:ddd2dmm"),("field to degrees",f"{H}:dmm2ddd")],["ddd2dmm","dmm2ddd","generated payload fields"])

p("C09","Date and time fields are decoded and generated in their published format",
"Date fields are ddmmyy, ddmmyyyy or mmddyy as the field's type prescribes (two digit years 69-99 meaning 1969-1999 and 00-68 meaning 2000-2068), time fields hhmmss or hhmmss.s... with up to microsecond resolution, and every valid one is decoded to the corresponding date or time and generated back to the same digits (times to two decimals, truncated). Anything that is not such a date or time gives an empty string when decoding. A date or time may equally be supplied in ISO text form when generating.",
["inputs"],"all calendar dates 1969-2068 (and 1000-9999 for four digit years) x formats; all times of day x 0-6 decimals; malformed strings",
"Tests convert one or two dates per format; the four digit year format was never tested and did not work.",
[H,M],[("dates",f"{H}:date2utc, date2str"),("times",f"{H}:time2utc, time2str"),("ISO text",f"{M}:val2str")],["date2utc","date2str","time2utc","time2str","NMEAReader.parse","NMEAMessage constructor"])

p("C10","The reader returns every sentence once, in stream order, with its exact bytes",
"From any byte stream in which valid NMEA sentences are interleaved with other data, the reader (outside NMEA-only mode) returns exactly the sentences, each once, in stream order, each with the exact bytes from its $ to its LF, until the stream ends; other data, including binary data, line noise, stray $ bytes and stray line ends, yields nothing and hides no following sentence, unless it contains the two byte start of a sentence itself. What follows a sentence never affects it, and nothing read before a sentence changes how it is parsed. Iteration and repeated read calls give the same sequence, and both end at end of stream; where more data come after such an end (a time-out, a growing file) between sentences, reading resumes with them. From a file or serial stream nothing is taken beyond the sentence returned, so that the stream can be shared.",
["inputs","histories","configurations"],"all interleavings of sentences and foreign data (not containing the two byte start of a sentence), LF or CRLF terminated, truncated at any byte, from files, serial-like streams and sockets",
"Tests read six fixed log files of clean or once-mixed data.",
[R],[("start of sentence search",f"{R}:read"),("end of sentence",f"{R}:_read_line"),("end of stream",f"{R}:_read_bytes")],["NMEAReader.read","NMEAReader iteration"])

p("C11","A bad sentence is handled as configured and never disturbs its neighbours",
"For any sequence of good sentences and bad ones (those for which parsing with the reader's settings raises), the ignore setting returns exactly the good ones silently, the log setting returns the same ones and reports each bad one exactly once, in order, as the documented exception to the error handler if there is one, else to the logger, and the raise setting raises that exception at the first bad sentence, after which reading can be resumed with the next sentence. In NMEA-only mode a $ that does not start an NMEA sentence is such an error, otherwise it is skipped silently. None of these settings changes the value of a good message.",
["fault_sequences","histories","configurations"],"all sequences of good sentences, corrupted checksums, type errors, unknown messages, malformed and truncated lines and foreign headers x quitonerror x error handler x nmeaonly x validate",
"Tests try single errors per setting on fixed files; sequences, resumption and the exactly-once reporting are not covered.",
[R],[("policy",f"{R}:_do_error, read")],["NMEAReader.read","errorhandler calls","log records"])

p("C12","No input makes the parser or reader fail in an undocumented way or hang",
"Whatever bytes or text are parsed or read, in whatever mode and validation setting, the only exceptions that can come out of the parser are the documented ones (NMEAParseError, NMEAMessageError, NMEATypeError), and the reader under the ignore or log setting raises nothing at all. Every call returns after work that grows no faster than the length of the input, and a reader over a finite stream always reaches the end of stream. Sentences that were read or parsed and are not kept by the caller take up no memory.",
["inputs","configurations"],"all byte strings and strings, in particular mutations of valid sentences (truncated, spliced, with control or non-ASCII characters, huge numbers), x modes x validation x user definitions; streams from files, serial ports and sockets, plain, chunked or compressed, intact or damaged",
"Tests feed about ten malformed sentences; several short proprietary sentences crashed with IndexError and one count field could hang the parser, and long socket lines took quadratic time.",
[R,M,H,S],[("exception translation",f"{M}:_do_attributes, {H}:get_parts"),("error containment",f"{R}:read")],["NMEAReader.parse","NMEAReader.read","NMEAMessage constructor"])

p("C13","A socket stream delivers the sent bytes, however they are segmented",
"Over any segmentation of the transmitted bytes into recv results and any buffer size, successive reads from the socket stream return the transmitted bytes exactly once, in order: a read of n bytes returns n bytes, or nothing if the socket closes, times out or fails first; a line read returns everything up to and including the next LF, whatever precedes it. After a timeout the stream can be read on without loss of bytes not yet returned by a line read. Data written goes to the socket unchanged, and the number of bytes waiting is that of bytes received but not yet read, and the buffer shows exactly those.",
["schedules","histories","fault_sequences"],"all segmentations x buffer sizes x sequences of read/readline/in_waiting/write x timeouts, errors and close at any point",
"Tests use one dummy socket that delivers a fixed message in one or two segmentations.",
[S,R],[("buffer refill",f"{S}:_recv"),("exact read",f"{S}:read"),("line read",f"{S}:readline")],["SocketWrapper.read","SocketWrapper.readline","NMEAReader over a socket"])

p("C14","Chunked and compressed socket streams decode alike however segmented",
"For a stream sent with chunked transfer encoding, in chunks of any size, each chunk optionally compressed (gzip, zlib or raw deflate, according to the encoding setting), the data delivered is exactly the concatenation of the original chunk contents, for every segmentation of the encoded stream into recv results. Chunk extensions (after a semicolon in the size line) are ignored. Segment boundaries within the chunk size line, the chunk data or the chunk terminator make no difference. Consequently a reader on such a stream returns the same messages as on the plain data.",
["schedules","inputs","configurations"],"all chunk sizes and contents (also binary and containing line ends) x encodings x segmentations (each boundary) x buffer sizes x upper/lower case and zero padded chunk sizes",
"Tests dechunk three fixed segments; a boundary between chunk data and its terminator lost data.",
[S],[("chunk decoder",f"{S}:dechunk"),("partial chunk carry over",f"{S}:_recv")],["SocketWrapper.read","SocketWrapper.readline","NMEAReader over a socket"])

p("C15","A message never changes after construction, nor changes its inputs",
"Once constructed, a message rejects every attempt to set, add or delete an attribute with NMEAMessageError, and no such attempt, nor changing any list or dictionary passed to the constructor or returned by an accessor, changes what it reports or serializes. Constructing or parsing a message changes none of the caller's arguments and none of the published definition tables. Results are repeatable: every accessor returns equal results each time. Copies (copy, deepcopy, pickle) report the same and are as immutable.",
["histories","inputs"],"all messages x sequences of set/add/delete attempts, mutation of payload lists obtained from or passed in, interleaved with observation",
"Tests assign to one attribute of one message; deletion and payload mutation used to go through.",
[M],[("immutability guard",f"{M}:__setattr__, __delattr__"),("payload copies",f"{M}:payload, _do_attributes")],["setattr/delattr on NMEAMessage","NMEAMessage.payload","NMEAMessage.serialize"])

p("C16","repr of a message evaluates to an equal message; str lists its attributes",
"Evaluating the repr of any message built from published definitions recreates a message with the same identity, mode, payload and, where its checksum is correct, the same serialization; for a parsed message also the same attributes (attributes supplied to a constructor can be more precise than the sentence). The str form is <NMEA(identity, name=value, ...)> listing every public attribute in sentence order with its value, marked NOMINAL exactly when the message type is not a known one.",
["inputs","configurations"],"all parsed and generated messages of all modes, with arbitrary text in fields (quotes, backslashes, control and non-ASCII characters)",
"Tests check str and eval(repr) of a few messages with tame text.",
[M],[("repr",f"{M}:__repr__"),("str",f"{M}:__str__")],["repr","str"])

p("C17","Unknown talkers and messages are rejected or passed through as configured",
"With message validation on, a sentence is rejected with NMEAParseError exactly when its talker is not a published one, or its message is neither published nor user-defined, or has no definition in the requested mode; direct construction raises NMEAMessageError for the same. With message validation off every such sentence yields a message whose fields appear verbatim and in order as field_01, field_02, ... unless its message definition is known. A user-defined definition is used for exactly its own msgID, with the same field decoding as published ones, and never overrides a published message.",
["inputs","configurations"],"all talkers x msgIDs (published, user-defined, unknown, near misses) x modes x validate x userdefined tables",
"Tests try one unknown talker, one unknown message and one user-defined table.",
[M,R],[("talker/msgID validation",f"{M}:__init__"),("definition lookup",f"{M}:_get_dict"),("fallback",f"{M}:_set_attribute_nominal")],["NMEAReader.parse","NMEAMessage constructor"])

p("C18","Proprietary messages select the right variant and identity",
"For proprietary messages whose first field names the message (such as PUBX, PASHR, PGPPADV, PTNL, PFEC, PSSN) the definition is selected by that field and the identity is talker, msgID and that field; for messages with several forms (notably Quectel configuration commands and acknowledgements, and ST DR sensor messages) the form is determined by what the sentence contains. A Quectel response of just OK or just ERROR and a code is an acknowledgement or a rejection for every Quectel command. A message generated from keyword attributes and the same message parsed from its sentence always select the same form.",
["inputs","configurations"],"all proprietary definitions and variants x field counts x first field values x modes x parse and generate",
"Tests include some variants with one sample each; the full variant matrix, error responses of most commands and generated/parsed agreement are not covered.",
[M]+[T[1],T[3],T[5]],[("prefix dispatch",f"{M}:_get_dict"),("variant dispatch",f"{M}:_get_dict_prop and helpers"),("identity",f"{M}:identity")],["NMEAReader.parse","NMEAMessage.identity","NMEAMessage constructor"])

p("C19","Degree-minute-second display conversions are exact and reversible",
"For every latitude and longitude, the degrees-minutes and degrees-minutes-seconds display forms show whole degrees, minutes below 60 and seconds below 60 in plain decimal notation with the correct hemisphere letter, and represent the position to within half a unit of the last decimal (1e-7 minutes, 1e-5 seconds). Converting such a form back to decimal degrees gives the original position to the requested rounding. The pair forms agree with the single coordinate forms, a value that is not a finite number gives an empty string, and invalid text is rejected with ValueError.",
["inputs"],"all degrees in [-180,180] including values within rounding distance of whole minutes and degrees, both axes, all roundings; text forms with and without minutes, seconds, spaces and letters",
"Tests convert a few coordinates; 60 minute/60 second and exponent renderings occur only in narrow bands of values.",
[H],[("d.m",f"{H}:deg2dmm, latlon2dmm"),("d.m.s",f"{H}:deg2dms, latlon2dms"),("inverse",f"{H}:dms2deg")],["deg2dmm","deg2dms","latlon2dmm","latlon2dms","dms2deg"])

p("C20","ECEF and geodetic coordinates convert into each other without loss",
"Converting geodetic latitude, longitude and height to ECEF agrees with the defining ellipsoid formula, and converting ECEF to geodetic is its inverse, to within a millimetre and 1e-8 degrees, for every point from 10 km below the surface to 10000 km above (poles, equator and date line included), for WGS84 and for other ellipsoids. Mirroring or rotating the input about the Earth's axis mirrors or rotates the output. Points within 100 km of the Earth's centre give the documented nominal result rather than an error.",
["inputs","configurations"],"all latitudes, longitudes, heights; ellipsoids of various size and flattening",
"Tests convert two or three positions.",
[H],[("to ECEF",f"{H}:llh2ecef"),("from ECEF",f"{H}:ecef2llh")],["llh2ecef","ecef2llh"])

p("C21","Distances, bearings and areas between coordinates are geometrically correct",
"For all pairs of coordinates the great circle distance agrees with the spherical formula to within its documented range (over 50 m, up to and including antipodal points), the planar distance agrees with it for short separations, the bearing is the initial great circle bearing in [0, 360), and the area is that of the spherical rectangle between the coordinates. Distance and area are symmetric and non-negative, vanish for coinciding arguments, and scale with the radius (area: its square). No pair of valid coordinates raises an exception.",
["inputs"],"all pairs of coordinates (random, near, antipodal, polar, meridian, equator, across the date line), all radii",
"Tests check three pairs; antipodal pairs raised a math domain error.",
[H],[("distance",f"{H}:haversine, planar"),("bearing",f"{H}:bearing"),("area",f"{H}:area")],["haversine","planar","bearing","area"])

p("C22","GNSS week and time of week convert exactly to and from UTC",
"For every instant since the start of a GNSS time system (GPS, Galileo, BeiDou, QZSS, NavIC), week number, time of week in milliseconds and leap second offset are those of that system's epoch and the published leap second table at that instant, with 0 <= time of week < 604800000, and converting them back gives the same instant to the millisecond, apart from the inserted leap second itself. Modular week numbers are the continuous ones modulo the system's rollover. With automatic rollover the result is the latest candidate date not after the present; GLONASS applies no leap seconds.",
["inputs","configurations"],"all instants 1972-2035 and up to two rollovers on, with emphasis on leap seconds, week ends and rollovers x systems x modular/continuous x given/derived leap seconds x autoroll",
"Tests convert a few epochs; instants within the leap offset of a week end or a leap second gave inconsistent week/time of week.",
[H],[("to week",f"{H}:utc2wnotow"),("from week",f"{H}:wnotow2utc"),("leap seconds",f"{H}:leapsecond")],["utc2wnotow","wnotow2utc","leapsecond"])

p("C23","The published message dictionary is complete and consistent",
"Every published talker, message id, message description, code list and constant of the release is present with its published meaning. Every message definition refers only to valid field types and, for repeating groups, to counts given earlier in the same message; a sentence laid out by any definition is decoded into that definition's attributes, and every definition that is not receive-only can be built. No parsing, generating or reading activity changes any of this.",
["inputs","configurations"],"all entries of all tables, before and after arbitrary use",
"Tests touch the definitions only through the samples they parse; two definitions were unreachable and five had defects without any test failing.",
["nmeatypes_core.py","nmeatypes_decodes.py"]+T,[("tables","nmeatypes_*.py"),("descriptions",f"{H}:msgdesc")],["msgdesc","definition tables","NMEAReader.parse"])

p("C24","Sentence splitting and the small formatting helpers are correct for all input",
"Splitting a sentence (bytes or str, with or without $ and line end) yields its content, talker, message id, fields and checksum, consistently with what the parser reports, and a sentence without a checksum delimiter or that is not text is rejected with NMEAMessageError. Speed conversion is linear in the published factors for each unit in any letter case and rejects other units and non-numbers with KeyError and TypeError; hex formatting gives upper case digits zero padded to the requested width; ISO 6709 position strings carry an explicit sign and the exact magnitude, in plain decimal digits, of each of latitude, longitude and altitude, then the given reference system; message descriptions are the published ones, or say unknown.",
["inputs"],"all sentences and arbitrary bytes; all numbers, units, widths, coordinates and message ids",
"Tests call each helper with one or two arguments.",
[H],[("splitting",f"{H}:get_parts"),("formatting",f"{H}:knots2spd, hex2str, llh2iso6709, msgdesc")],["get_parts","knots2spd","hex2str","llh2iso6709","msgdesc"])

p("C25","Readers and messages are independent of each other and of history",
"The result of parsing a sentence or building a message depends only on its arguments: it is the same after any other activity, in any order, interleaved over any number of readers with different settings, and in concurrent threads. Settings of one reader (mode, validation, user definitions, error handling) never affect another reader or a direct parse. Messages created earlier are never affected by messages created later.",
["histories","schedules","configurations"],"all interleavings of operations on several readers, parses and constructions; concurrent threads",
"Tests run single operations in a fixed order, each in a fresh object.",
[R,M],[("no shared mutable state",f"{M}:__init__, _get_dict"),("per reader settings",f"{R}:__init__")],["NMEAReader.read","NMEAReader.parse","NMEAMessage constructor"])

p("C26","Mode and options select the definitions, identically for reading and parsing",
"The message mode (GET, SET, POLL) selects which published definition decodes or builds a message, and the message reports that mode; any other mode is rejected, with NMEAParseError by parser and reader and NMEAMessageError by the constructor. Reading a sentence from a stream with some mode, validation setting and user definitions gives the same message as parsing its bytes with the same options, and defaults are GET mode with checksum validation only. A sentence parsed without errors in one validation setting has the same attributes in every other setting that accepts it.",
["inputs","configurations"],"all sentences x modes (valid and invalid) x validation settings x user definitions x stream kinds",
"Tests use matching modes for a few SET and POLL samples.",
[R,M],[("mode check",f"{R}:__init__, parse; {M}:__init__"),("definition by mode",f"{M}:_get_dict, _get_dict_prop"),("option pass-through",f"{R}:read")],["NMEAReader.read","NMEAReader.parse","NMEAMessage constructor"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,sch)
print(len(P))
