"""writes properties.jsonl (the text of the properties lives here)"""
import json
import os

M = "src/pynmeagps/nmeamessage.py"
R = "src/pynmeagps/nmeareader.py"
H = "src/pynmeagps/nmeahelpers.py"
S = "src/pynmeagps/socketwrapper.py"
T = ["src/pynmeagps/nmeatypes_core.py", "src/pynmeagps/nmeatypes_get.py", "src/pynmeagps/nmeatypes_get_prop.py",
     "src/pynmeagps/nmeatypes_set.py", "src/pynmeagps/nmeatypes_set_prop.py", "src/pynmeagps/nmeatypes_poll.py",
     "src/pynmeagps/nmeatypes_poll_prop.py"]
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Checksum is the XOR of the sentence content",
     "The checksum of a sentence content is the XOR of all its characters, written as at least two upper case hexadecimal digits, whatever the "
     "content and its length. The checksum generated for a talker, message id and payload list is the checksum of those parts joined "
     "with commas (talker and message id unseparated).",
     ["inputs"], "all texts; all talkers, message ids and payload lists of any length",
     "Tests compare a handful of recorded sentences.", [H],
     [("calc_checksum", H), ("generate_checksum", H)], ["return value"])
prop("C02", "Checksum validation is an exact gate",
     "With the checksum validation flag on, parsing returns a message only if the text after '*' equals (case-insensitively) the checksum of "
     "the content between '$' and '*', and refuses anything else with a parse error; with the flag off the checksum plays no part. "
     "A message mode other than GET, SET or POLL is refused with a parse error. A sentence that passes gives exactly the message of its own "
     "talker, id, payload and checksum under the given mode, validation flags and user-defined definitions; a malformed sentence, or an "
     "unknown message when message id validation is on, is refused with a parse error when that flag is on and otherwise gives None.",
     ["inputs", "configurations"], "all sentences (text or bytes), all checksum fields, all validation flag combinations, all message modes",
     "Tests try a few bad checksums with the default flags; the claim is about every content, every wrong checksum and every flag combination.",
     [R, H], [("NMEAReader.parse", R), ("get_parts", H)], ["return value or exception of parse()"])
prop("C03", "Sentences are split into exactly their parts",
     "Splitting a sentence yields the content between '$' and '*', the talker (one character for proprietary 'P' sentences, else two), the "
     "message id, the comma separated payload fields in order, and the text after the first '*'; talker, id and fields joined with commas give back the "
     "content. Bytes are treated as their UTF-8 text, and anything that cannot be split is refused with a message error, never another exception.",
     ["inputs"], "all texts, all byte strings and objects of any other type",
     "Tests split a few well formed sentences.", [H], [("get_parts", H)], ["return value or exception"])
prop("C04", "Parsing then serializing gives back the sentence",
     "Serializing a message parsed from a well formed sentence '$content*checksum<CR><LF>' yields exactly the same bytes, whatever its fields "
     "hold, whether or not its definition is known. The talker, message id, payload list and checksum exposed by the message are those of the sentence.",
     ["inputs", "configurations"], "all well formed UTF-8 sentences, message modes and validation flags for which parsing returns a message",
     "Tests re-serialize the recorded logs only.", [M, R], [("NMEAMessage.serialize", M), ("NMEAReader.parse", R)],
     ["serialize()", "payload, talker, msgID, checksum"])
prop("C05", "Newly created messages serialize to valid sentences",
     "A message created without a checksum serializes to '$' + talker + message id + ',' separated payload fields + '*' + the XOR checksum of "
     "that content in two upper case hexadecimal digits + <CR><LF>, whether created from a payload or from attribute keywords and whether or not its definition is known. A checksum "
     "supplied by the caller is serialized unchanged.",
     ["inputs", "configurations"], "all talkers, ids, modes, payload lists and keyword sets for which construction succeeds",
     "Tests build a few messages of known types.", [M, H], [("NMEAMessage.serialize", M), ("generate_checksum", H)], ["serialize()"])
prop("C06", "Payload fields are decoded by position as defined",
     "Each field of the payload becomes the attribute at the same position of the message's definition, with the value its attribute type gives "
     "to the field text (hemisphere signs aside); fields missing at the end leave their attributes unset, surplus fields create none, and no other attribute appears. A message without a "
     "definition gets attributes field_01, field_02, ... holding the raw texts.",
     ["inputs"], "all definitions of the tables and user-defined ones, all payloads of any length and content that decode without error",
     "Tests decode one or two samples of some message types.", [M], [("NMEAMessage._set_attribute_single", M), ("_do_attributes", M)],
     ["public attributes of the message"])
prop("C07", "Repeating groups expand to indexed attributes",
     "A group repeats the number of times its definition gives: a fixed number, the value of the named attribute, or for an open group of plain attributes as many whole "
     "repeats as the remaining fields allow (an incomplete repeat is not started); the attributes of repeat i get the suffix "
     "_i in at least two digits, nested groups one suffix per level, outermost first, and decoding goes on after the group at the next field.",
     ["inputs"], "all group definitions in the tables and user-defined ones, all repeat counts and payload lengths",
     "Tests cover few repeat counts, none beyond nine for most groups.", [M], [("_set_attribute_group", M), ("_calc_num_repeats", M)],
     ["public attributes of the message"])
prop("C08", "Hemisphere letters give the sign of lat/lon",
     "After decoding a definition in which the attributes lat and lon are followed by their N/S and E/W letters, a numeric latitude is never positive when the letter is 'S' and never negative otherwise, and "
     "likewise a longitude with 'W'; the magnitude is that of the position field and an empty position stays empty. A message created from signed lat/lon keywords "
     "carries the hemisphere letter of the sign and the magnitude as position field.",
     ["inputs"], "all definitions with latitude/longitude and hemisphere fields, all field contents",
     "Tests check a few positions.", [M], [("_set_attribute_single", M)], ["lat, lon, NS, EW attributes", "payload"])
prop("C09", "Field text is converted to the value its type defines",
     "Text fields are returned unchanged; a decimal or integer field is the number it denotes, or the empty string if empty; a date field "
     "(ddmmyy, ddmmyyyy, mmddyy) is the calendar date and a time field (hhmmss with optional fraction) the time of day it denotes, or the empty string if "
     "it denotes none. An unknown attribute type or an unconvertible number is an error, never a wrong value.",
     ["inputs"], "all texts and all attribute types", "Tests convert a few values of each type.", [M, H],
     [("NMEAMessage.str2val", M), ("date2utc, time2utc", H)], ["return value or exception"])
prop("C10", "Values are written as field text that reads back",
     "Converting a value to field text and back with the same attribute type gives the value again: text and hexadecimal unchanged, integers and decimals by value, "
     "dates exactly (two-digit-year formats within 1969-2068), times to the hundredth of a second (truncated). An invalid date, time or position value becomes the empty "
     "field rather than wrong text, and an unknown attribute type is refused.",
     ["inputs"], "all attribute types and all values of the types they accept", "Tests convert a few values of each type.", [M, H],
     [("NMEAMessage.val2str", M), ("date2str, time2str", H)], ["return value or exception"])
prop("C11", "Latitude/longitude text conversion is exact to its precision",
     "A position in degrees is written as (d)ddmm.mmmmm ((d)ddmm.mmmmmmm in high precision mode): two (latitude) or three (longitude) degree "
     "digits, minutes below 60 with two integer digits, and a magnitude within half a unit of the last place of the absolute value. "
     "Reading a position (d)ddmm.m... gives degrees + minutes/60 rounded to 10 decimals, or the empty string if it is not one; "
     "writing then reading returns the magnitude within that precision.",
     ["inputs"], "all positions within +/-90 and +/-180 degrees, all texts", "Tests convert a few positions, none at a minute carry.",
     [H], [("ddd2dmm", H), ("dmm2ddd", H)], ["return value"])
prop("C12", "repr() of a message rebuilds the message",
     "Evaluating repr(message) yields a message with the same talker, message id, mode, payload, attributes and serialized bytes, for any message that was parsed from a "
     "sentence (with its checksum in the usual upper case hexadecimal) or created with a payload under default settings, whatever characters its fields contain.",
     ["inputs"], "all parsed or payload-built messages of any definition, mode and field content (talker and id free of quotes and backslashes)",
     "Tests evaluate repr of a few messages.", [M], [("NMEAMessage.__repr__", M)], ["repr()", "eval"])
prop("C13", "Bad input raises only the documented errors",
     "Parsing any bytes or text ends in a message, None, or one of the library's documented error types, and creating a message from any talker, "
     "id, mode, list of field texts ends in a message or one of those errors; no other exception escapes. With message id validation off, unknown messages are not "
     "refused; with it on an unknown talker or message id is refused.",
     ["inputs", "configurations"], "all byte strings and texts, all payload lists, modes and validation flags",
     "Tests feed a few malformed sentences; a fuzzer could too, but not all inputs.", [M, R, H],
     [("_do_attributes", M), ("NMEAReader.parse", R)], ["exceptions of parse() and NMEAMessage()"])
prop("C14", "Messages are identified by the right definition",
     "A message is decoded with the definition held for its message id (for vendor sentences whose first field names the message, the id plus that field) in the "
     "tables of its mode: proprietary, user-defined or standard according to where the id is known, whatever the case of the letters; "
     "its identity is the talker plus that name. An id without a definition for the mode is refused when message id validation is on and otherwise gets generic numbered fields.",
     ["inputs", "configurations"], "all message ids and first fields, modes, validation flags and user-defined tables",
     "Tests look up the definitions they have samples for.", [M] + T, [("_get_dict", M), ("identity", M)],
     ["attribute names of the message", "identity"])
prop("C15", "Sentence variants get the definition of their own layout",
     "Where one vendor sentence has several layouts, the layout is chosen by what distinguishes the variants - payload length, the acknowledgement "
     "texts OK and ERROR, the numeric or textual first field, the message type field, or for created messages the keywords supplied - and "
     "a payload of each documented layout is decoded with the definition of that layout in its mode, other sentences never being affected.",
     ["inputs", "configurations"], "all variant sentences in all modes, all payload lengths and keyword sets",
     "Tests have one sample of some of the variants.", [M], [("_get_dict_prop and _get_dict_qtm*", M)], ["attribute names of the message"])
prop("C16", "Messages are immutable",
     "Once created, a message cannot be changed by setting or deleting any attribute, public or private: each attempt raises the message error and leaves attributes, "
     "payload and serialization as they were.",
     ["inputs", "histories"], "all messages, all attribute names and values, any sequence of attempts",
     "Tests try one attribute of one message.", [M], [("__setattr__, __delattr__", M)], ["exceptions", "attributes before and after"])
prop("C17", "The reader returns the sentences of a stream unaltered, in order",
     "Reading a stream yields, in order, the raw bytes of each sentence from its '$' to the end of its line together with its parse; bytes "
     "between sentences, and truncated data at the end of the stream, are never returned as part of one, no byte of the stream is returned twice, and every complete well formed sentence "
     "is returned even when directly preceded by other data (unless its '$' falls inside what reads as an earlier sentence).",
     ["inputs", "histories"], "all byte streams and any number of reads", "Tests read recorded files and a few mixed streams.", [R],
     [("NMEAReader.read, _parse_nmea, _read_bytes, _read_line", R)], ["(raw, parsed) pairs"])
prop("C18", "Errors while reading follow the chosen policy",
     "When a sentence in the stream cannot be parsed, the reader raises the error if told to raise; if told to log it reports once to the error handler, or "
     "to the log when there is none, and goes on with the rest of the stream; if told to ignore it goes on silently. Whatever the policy, sentences after a bad one are still read, in the "
     "log and ignore policies iteration never ends before the stream does, and other sentences' results do not depend on it. With the NMEA-only option set, "
     "a non-NMEA protocol header raises a parse error when the policy is raise.",
     ["inputs", "histories", "configurations"], "all streams and error policies", "Tests use one bad sentence per policy.", [R],
     [("NMEAReader.read, _do_error, __next__", R)], ["results, exceptions, handler calls"])
prop("C19", "The socket wrapper delivers the byte stream transparently",
     "However the data is split across socket reads, read(n) takes the next n bytes of the received stream, or returns nothing and takes nothing while fewer than n are there at "
     "end of data or a timeout; readline() takes the next bytes up to and including CRLF, or what is left before the end of data or timeout; no byte is lost, repeated or "
     "reordered over any sequence of such calls. Data written is passed to the socket unchanged.",
     ["inputs", "schedules", "fault_sequences"], "all byte streams, all fragmentations, all sequences of reads, timeouts and end of data",
     "Tests use a dummy socket with one fragmentation.", [S], [("SocketWrapper.read, readline, _recv", S)], ["bytes returned"])
prop("C20", "Chunked transfer data is decoded whatever the fragmentation",
     "For a well formed chunked stream the decoded output is the concatenation of the chunk bodies, however the stream is cut into segments; "
     "nothing of chunk sizes, extensions or delimiters appears in it and no body byte is lost, and bytes that arrive early are kept for the next segment.",
     ["inputs", "schedules"], "all chunk sequences and contents, all fragmentations", "Tests use whole chunks and a few cuts.", [S],
     [("SocketWrapper.dechunk", S)], ["decoded bytes"])
prop("C21", "The leap second offset follows the published table",
     "The leap second offset of a UTC time is the offset of the latest table entry not after it less the offset at the epoch of the time system (0 before 1972, GPS-like systems: 0 "
     "at 1980-01-06, 18 from 2017; BeiDou: 4 less); naive times count as UTC and other time zones by their instant, the offset never decreases with time after 1972, and the table "
     "is the IERS list.",
     ["inputs"], "all times and time systems", "Tests sample a few dates.", [H], [("leapsecond", H), ("LEAPSECONDS", H)], ["return value"])
prop("C22", "Week number and time of week convert exactly",
     "UTC converts to week number and time of week such that epoch + weeks*7d + time of week equals UTC plus the leap second offset, "
     "to the millisecond (truncated), with 0 <= time of week < 604800000; the modular week number is the continuous one modulo the system's rollover (1024 GPS/QZSS/NavIC, "
     "4096 Galileo, 8192 BeiDou). Converting back with the same system gives the same UTC to the millisecond (outside the leap second itself), and autoroll gives the latest such date not after now.",
     ["inputs"], "all times from the epochs on, all time systems, modular or continuous weeks", "Tests sample a few dates.", [H],
     [("utc2wnotow", H), ("wnotow2utc", H)], ["return values"])
prop("C23", "Message definitions are well formed and complete",
     "Every message definition maps attribute names to known attribute types or to (repeat count, group) pairs whose count is a number, an attribute decoded "
     "earlier, or open; names are unique within a decoded message and never shadow the message's own members; every definition key belongs to a known message id, and every attribute of the documented layouts keeps "
     "its name, type and position.",
     ["configurations"], "all definitions of all tables", "Tests decode only the messages they have samples of.", T, [("definition tables", T[1])],
     ["tables", "decoded attributes"])
prop("C24", "Geodetic conversions and distances are consistent",
     "Geodetic to ECEF conversion satisfies the ellipsoid equation and its inverse returns the position to better than a centimetre near the Earth's surface; great-circle "
     "distance is symmetric, zero for equal points, never fails, and equals the radius times the central angle; bearings lie in [0, 360) and are the initial great-circle course; planar "
     "distance and area follow their formulas.",
     ["inputs"], "all positions and radii in range", "Tests sample a few positions.", [H],
     [("llh2ecef, ecef2llh, haversine, bearing, planar, area", H)], ["return values"])
prop("C25", "Display formats of positions denote the position",
     "Degrees-minutes(-seconds) text has minutes and seconds below 60, the hemisphere letter of the sign, and denotes the position to the shown precision; reading a "
     "degrees-minutes-seconds text gives degrees + minutes/60 + seconds/3600, negative for S or W, rounded as asked, and anything else is a ValueError. ISO 6709 "
     "text carries the sign and magnitude of each coordinate.",
     ["inputs"], "all positions, all texts", "Tests sample a few positions.", [H], [("deg2dmm, deg2dms, dms2deg, llh2iso6709, latlon2dmm, latlon2dms", H)],
     ["return values"])
prop("C26", "Small helpers compute what they document",
     "The group size of keyword arguments is the largest numeric suffix (0 if none); hexadecimal text is the upper case hexadecimal of the number padded to the "
     "width asked; speeds are the knots times the factor of the unit in any letter case, an unknown unit being a KeyError; the description of an id is the one of "
     "the id tables.",
     ["inputs"], "all arguments", "Tests sample a few values.", [H], [("groupsize, hex2str, knots2spd, msgdesc", H)], ["return values"])
prop("C27", "Created messages carry the given and nominal values",
     "A message created from keywords has, for each attribute of its definition in order, the field text of the given value, or of the nominal value of its type where "
     "none is given, and exposes that value as attribute; groups repeat as the count or the suffixes of the keywords say, and keywords not in the definition are ignored.",
     ["inputs", "configurations"], "all definitions, keyword sets and values for which construction succeeds", "Tests build a few messages.", [M],
     [("_set_attribute_single", M), ("nomval", M)], ["payload, attributes"])
prop("C28", "Parsing and creation have no side effects",
     "Parsing or creating a message changes neither the arguments passed (sentence, payload list content, keywords, definitions) nor any table or module state, so "
     "results do not depend on which messages were handled before.",
     ["inputs", "histories"], "all arguments and histories", "Tests never compare state before and after.", [M, R] + T, [("whole constructor", M)],
     ["arguments and tables before and after"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
