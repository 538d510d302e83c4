#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that statements stay readable).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PR="mbus/mbus-protocol.c"; AX="mbus/mbus-protocol-aux.c"; TCP="mbus/mbus-tcp.c"; SER="mbus/mbus-serial.c"
T110="The 110 baseline tests only convert recorded frames from hex to XML (plain and normalized)"

p("P01","Link-layer telegram acceptance is exact",
 "Parsing a byte buffer as a telegram succeeds exactly when the buffer is one complete well-formed M-Bus telegram: the ACK character (nothing after it is looked at), a 5-byte short frame, or a long/control frame whose start bytes, two equal length bytes (at least 3), stop byte, additive checksum and C field are all valid for its kind. On success every field of the parsed telegram (type, control, address, control information, user data and their count, checksum) equals the corresponding bytes; every other buffer is rejected with a negative result or reported as incomplete. In particular changing any single byte of a short, control or long telegram never yields an accepted telegram of that kind with different content unless the change keeps the checksum and structure valid.",
 ["inputs"],"every byte buffer: valid telegrams of all four kinds and lengths, single/multi byte mutations, truncations, extensions, random bytes",
 T110+"; only a handful of malformed ones; the accept set over all buffers is never compared with a specification.",
 [PR],[("telegram parser","mbus_parse"),("telegram validity check","mbus_frame_verify"),("checksum","calc_checksum / mbus_frame_calc_checksum")],
 ["return value of mbus_parse and the fields of the frame it filled"])
p("P02","Byte-by-byte reception reports exactly how much is missing",
 "For every proper prefix of a valid telegram the parser reports a positive number of missing bytes that is never larger than what is really missing, so a reader that keeps asking for exactly that many bytes receives the whole telegram, never blocks for bytes that do not belong to it, and never reads past its end. A buffer with a wrong start character, a length field that cannot be right, or bytes beyond the end of a short, control or long telegram is rejected rather than reported as incomplete.",
 ["inputs","histories"],"every telegram kind and length, every prefix, every schedule of appending bytes; malformed headers",
 "The tests hand over whole telegrams; the incremental contract that both transports rely on is never exercised.",
 [PR,TCP,SER],[("missing-byte computation","mbus_parse")],["return value of mbus_parse on prefixes"])
p("P03","Packing and parsing telegrams are inverse",
 "Packing any telegram built with valid fields yields bytes (with freshly computed lengths and checksum) that are accepted by the parser and parse back to the same type, control, address, control information and user data, and parsing any valid telegram and packing it reproduces the original bytes. If the destination buffer is smaller than the telegram, packing fails with a negative result and writes nothing beyond the buffer; the reported size is the exact telegram size.",
 ["inputs"],"all four telegram kinds, all valid C fields, all address/CI values, 0..252 user data bytes, all buffer sizes",
 T110+"; packing is never run by any test.",
 [PR],[("packing","mbus_frame_pack"),("length","mbus_frame_calc_length"),("checksum","mbus_frame_calc_checksum"),("constructor","mbus_frame_new")],
 ["output buffer and result of mbus_frame_pack, mbus_frame_new/free, mbus_frame_verify"])
p("P04","Decoding arbitrary bus bytes never crashes, overruns or hangs",
 "For any byte sequence received from the bus, every decoding entry point (telegram parsing, application-layer decoding, record accessors, plain and normalized XML, record normalization, debug printing, secondary-address extraction) terminates without reading or writing memory outside its objects and without undefined arithmetic, whether it succeeds or returns an error.",
 ["inputs"],"all byte sequences, in particular application data that is truncated at, or filled to, every limit (252 data bytes, 10 extensions, 128-char texts)",
 T110+" without sanitizers; hostile or truncated data at the size limits is not covered.",
 [PR,AX],[("record parser bounds","mbus_data_variable_parse"),("XML buffer growth","mbus_data_variable_xml, mbus_frame_xml, mbus_data_variable_xml_normalized"),("text decoding","mbus_data_str_decode, mbus_data_bin_decode")],
 ["AddressSanitizer/UndefinedBehaviorSanitizer reports, process exit, result values"])
p("P05","No memory is leaked or freed twice, on success or on error",
 "After any sequence of library calls in which the caller releases what the documentation tells it to release, every heap block the library allocated has been released exactly once; this holds equally when a call fails half-way (malformed records, failed transmission, unknown units, error replies in a telegram chain).",
 ["inputs","histories","fault_sequences"],"all API call sequences over valid, truncated and malformed telegrams and multi-telegram chains",
 "The tests never look at the heap and hardly reach error paths.",
 [PR,AX],[("record list ownership","mbus_data_record_append / mbus_data_record_free"),("frame chain ownership","mbus_frame_free, mbus_frame_xml, mbus_sendrecv_request"),("normalized records","mbus_parse_variable_record, mbus_record_free")],
 ["count of live allocations made by the library, AddressSanitizer double-free/use-after-free reports"])
p("P06","Failing memory allocation is reported, not fatal",
 "If any single memory allocation (or every one from some point on) made by the library fails, the call in progress reports failure or a partial-but-valid result instead of crashing or corrupting memory, releases everything it had allocated, and later calls work normally once memory is available again.",
 ["fault_sequences","inputs"],"every allocation point of decoding, XML generation, normalization, context creation and multi-telegram read-out, over generated inputs",
 "No test injects allocation failures.",
 [PR,AX],[("allocation checks","mbus_data_record_new, mbus_frame_xml, mbus_data_variable_xml, mbus_parse_variable_record, mbus_context_tcp, mbus_context_serial")],
 ["return values, live allocations and sanitizer reports under injected allocation failure"])
p("P07","Variable data is split into header and records exactly as sent",
 "Decoding a variable-structure reply yields the 12-byte header fields unchanged and exactly one record per data record present, in order, each with the transmitted DIF, DIF extensions, VIF, VIF extensions, custom unit text (in reading order) and data bytes; idle-filler bytes produce nothing and manufacturer-specific data is one final record that carries the more-records-follow indication when sent so. Data that ends inside a record or has more than ten DIF or VIF extensions is rejected as an error.",
 ["inputs"],"all well-formed record sequences that fit into a telegram (all DIF/VIF classes, extension chains, variable lengths, fillers, manufacturer data) and all truncations of them",
 T110+"; that is 83 recorded telegrams, not the space of record sequences.",
 [PR],[("record parser","mbus_data_variable_parse"),("data length","mbus_dif_datalength_lookup"),("dispatch on direction and CI","mbus_frame_data_parse")],
 ["mbus_frame_data_parse result and the record list it builds"])
p("P08","Storage number, tariff, device and function follow the DIF chain",
 "For every chain of a DIF and up to ten DIF extensions the reported storage number, tariff and device are the little-endian concatenation of the storage (1 then 4 bits), tariff (2 bits) and device (1 bit) fields, tariff and device being absent (-1) without an extension, and the reported function is the instantaneous/maximum/minimum/error value selected by the DIF (or manufacturer-specific / more-records-follow for the special DIFs). The same numbers appear in the plain XML, the normalized XML and the normalized record.",
 ["inputs"],"all DIF values and all DIF-extension chains of length 0..10",
 T110+"; long extension chains (beyond 7 extensions) do not occur.",
 [PR,AX],[("storage number","mbus_data_record_storage_number"),("tariff","mbus_data_record_tariff"),("device","mbus_data_record_device"),("function","mbus_data_record_function")],
 ["accessor results, StorageNumber/Tariff/Device/Function elements in XML, mbus_record fields"])
p("P09","Record values are rendered and decoded exactly",
 "The value of every variable data record, as text and as decoded number or string, equals the value the M-Bus encoding defines for its data bytes: two's-complement integers of 1-8 bytes, IEEE floats, BCD with sign (hexadecimal for an error-state value), dates and times where the unit says so, text in reading order, and hexadecimal for binary (most significant byte first) or manufacturer-specific data (in transmission order).",
 ["inputs"],"all data types times all data bytes times the units that change interpretation",
 T110+"; each data type is seen with a few values only.",
 [PR,AX],[("text rendering","mbus_data_record_value"),("numeric/string decoding","mbus_variable_value_decode"),("primitive decoders","mbus_data_*_decode")],
 ["mbus_data_record_value, mbus_variable_value_decode, Value elements in XML"])
p("P10","Unit descriptions follow the VIF tables",
 "The human-readable unit reported for a record is the one the M-Bus VIF tables assign to its (primary, extended or custom-text) value information, with the decimal exponent implied by the VIF's low bits; the extension bit of the VIF itself never changes the result, and codes without an assigned meaning are reported as unknown or reserved instead of as some quantity.",
 ["inputs"],"all 256 primary VIFs, all FB/FD extension codes (with and without their extension bit), all custom texts",
 T110+"; they touch a minority of the codes.",
 [PR],[("VIF description","mbus_vif_unit_lookup"),("VIB description","mbus_vib_unit_lookup"),("prefix","mbus_unit_prefix")],
 ["mbus_data_record_unit, mbus_vib_unit_lookup, Unit elements in XML"])
p("P11","Normalized quantities have the right unit and magnitude",
 "Normalizing a record's value multiplies the raw number by exactly the power of ten (or time factor) its value information defines and names the matching quantity and base unit, so that the same physical amount encoded with different VIF exponents normalizes to the same value and unit; a multiplicative or additive correction in the first VIF extension of a primary or custom VIF applies to the result. An unassigned code yields an error or an explicit unknown or reserved unit, never a wrong unit.",
 ["inputs"],"all VIFs and FB/FD extension codes, all correction extensions, all raw values",
 T110+"; a minority of VIF codes and almost no extension occurs there.",
 [AX],[("VIF table","vif_table / mbus_vif_unit_normalize"),("VIB normalization","mbus_vib_unit_normalize"),("record normalization","mbus_parse_variable_record")],
 ["mbus_vif_unit_normalize, mbus_vib_unit_normalize, mbus_parse_variable_record"])
p("P12","Fixed-structure replies are decoded and normalized exactly",
 "Decoding a fixed-structure reply (exactly 16 user data bytes) yields identification, access number, status, medium and both counters as sent; counters are read as binary or BCD, actual or stored, as the status byte says, units and medium follow the fixed-unit and medium tables, and normalization scales each counter by the power of ten its unit defines (calendar times are refused); a counter's normalized record has storage number 0 and no tariff or device (-1). Any other length is rejected.",
 ["inputs"],"all 16-byte contents (all status, medium, unit bytes), all other lengths",
 T110+"; only two of the recorded telegrams are fixed-structure.",
 [PR,AX],[("fixed parser","mbus_data_fixed_parse"),("fixed units","mbus_data_fixed_unit, fixed_table / mbus_fixed_normalize"),("fixed record","mbus_parse_fixed_record"),("fixed XML","mbus_data_fixed_xml")],
 ["parsed fields, XML, mbus_parse_fixed_record"])
p("P13","Error replies and undecodable frames are reported as such",
 "A reply carrying an application error is decoded as an error with the transmitted code (unspecified when none is sent) and rendered, in plain and normalized form alike, as an error document naming that code's meaning; frames from the wrong direction, with an unsupported control information, or with too little data yield an error result and a non-empty error message, never data.",
 ["inputs"],"all error codes with and without payload, all CI values, all C fields, all frame kinds",
 T110+"; three error frames are among them.",
 [PR,AX],[("dispatch","mbus_frame_data_parse"),("error text","mbus_data_error_lookup"),("error XML","mbus_data_error_xml, mbus_frame_data_xml, mbus_frame_data_xml_normalized")],
 ["mbus_frame_data_parse, mbus_frame_data_xml, mbus_frame_data_xml_normalized, mbus_error_str"])
p("P14","Number and manufacturer codecs are exact inverses",
 "Encoding an integer as little-endian binary or BCD and decoding it returns the original whenever it fits the field (including negative values), decoding followed by encoding reproduces canonical bytes, and decoded results equal the mathematical value for every byte pattern the encoding defines. Three-letter manufacturer codes and their 2-byte encodings convert back and forth without loss, and anything that does not begin with three letters has no manufacturer id.",
 ["inputs"],"all integers and byte patterns of 1..8 bytes, all 3-letter codes, arbitrary strings",
 T110+"; encoders are never run, decoders see a few values.",
 [PR],[("BCD","mbus_data_bcd_encode, mbus_data_bcd_decode, mbus_data_bcd_decode_hex"),("integers","mbus_data_int_encode, mbus_data_int_decode, mbus_data_long_decode, mbus_data_long_long_decode"),("float","mbus_data_float_decode"),("manufacturer","mbus_data_manufacturer_encode, mbus_decode_manufacturer, mbus_manufacturer_id")],
 ["results of the codec functions"])
p("P15","Dates and times decode to the transmitted calendar fields",
 "Decoding a type F, G or I date/time yields precisely the second, minute, hour, day, month, year and daylight-saving flag held in its bit fields (two-digit years up to 80 without a century mean 20xx), an invalid-marked time yields all-zero fields, and other sizes yield all zero; record texts show the same fields as ISO date or date-time.",
 ["inputs"],"all bit patterns of 2, 4 and 6 byte date/time values, all other sizes",
 T110+"; a few dozen recorded dates.",
 [PR,AX],[("date decoding","mbus_data_tm_decode"),("date rendering","mbus_data_record_value, mbus_variable_value_decode")],
 ["struct tm filled by mbus_data_tm_decode, record texts"])
p("P16","Plain XML is well-formed and faithful for every telegram",
 "For every telegram that decodes, the generated XML document is well-formed, complete (never truncated, whatever its size) and contains the header fields and exactly one record element per decoded record, in order, whose text contents are the escaped function, storage number, tariff, device, unit and value of that record and its time of reception in UTC wherever the program runs.",
 ["inputs"],"all decodable telegrams, in particular long texts, characters that need escaping, many records, custom units, manufacturer data",
 T110+" for byte equality with stored XML; well-formedness over other contents (markup characters, long values) is not settled.",
 [PR],[("XML generation","mbus_frame_data_xml, mbus_data_variable_xml, mbus_data_variable_record_xml, mbus_data_variable_header_xml, mbus_data_fixed_xml"),("escaping","mbus_str_xml_encode")],
 ["string returned by mbus_frame_data_xml / mbus_data_variable_xml / mbus_data_fixed_xml / mbus_data_error_xml, mbus_str_xml_encode"])
p("P17","Normalized XML agrees with the normalized records",
 "For every variable-structure telegram that decodes, the normalized XML document is well-formed and complete and lists, in order, one record element per decoded record, empty if the record cannot be normalized and otherwise one whose function, storage number, tariff, device, unit, quantity and value are those of the record's normalization; for fixed-structure and error replies it is a valid document as well.",
 ["inputs"],"all decodable telegrams",
 T110+" in normalized mode; only for recorded contents.",
 [AX],[("normalized XML","mbus_data_variable_xml_normalized, mbus_frame_data_xml_normalized")],
 ["string returned by mbus_frame_data_xml_normalized, mbus_parse_variable_record"])
p("P18","A telegram chain becomes one document with all records in order",
 "Rendering a chain that begins with a variable-structure telegram yields a single well-formed document with the first telegram's header and the variable data records of every telegram in chain order, numbered consecutively and, in a chain of several, tagged with their telegram's index. A chain with an undecodable telegram yields no document at all rather than a partial one.",
 ["inputs","histories"],"chains of 1..n telegrams with any record contents, with malformed, fixed, error or control telegrams at any position",
 "The tests render single telegrams only; multi-telegram rendering is never run.",
 [PR],[("chain rendering","mbus_frame_xml")],["string returned by mbus_frame_xml"])
p("P19","Decoded data can be re-serialised to the same telegram",
 "Re-serialising decoded variable-structure, fixed-structure or error data into a telegram reproduces the user data of the telegram it was decoded from (idle filler aside; an absent error code becomes the unspecified one), and decoding the result gives the same records again. Data that does not fit into a telegram is refused with a negative result and without overrunning it.",
 ["inputs"],"all decodable telegrams, with extension chains, custom units, variable-length and manufacturer data; hand-built oversized record lists",
 "No test runs re-serialisation.",
 [PR],[("re-serialisation","mbus_frame_internal_pack")],["frame filled by mbus_frame_internal_pack, mbus_frame_data_parse"])
p("P20","Secondary addresses survive extraction, validation and selection",
 "The 16-digit secondary address extracted from a reply consists of its identification number, manufacturer, version and medium in that order, is accepted as a secondary address, and the selection telegram built from it carries exactly those eight bytes in the order the reply had them; wildcard digits F stay wildcards. Strings that are not 16 hexadecimal digits are rejected, as are primary addresses outside 0..255, and replies without a complete variable header give no address.",
 ["inputs"],"all header contents, all 16-character address strings with wildcards, arbitrary strings and integers",
 "No test runs secondary addressing.",
 [PR],[("extraction","mbus_frame_get_secondary_address"),("selection telegram","mbus_frame_select_secondary_pack"),("validation","mbus_is_secondary_address, mbus_is_primary_address")],
 ["returned string, packed frame bytes, predicates"])
p("P21","Commands put exactly the specified telegram on the wire",
 "Each command (request, ping, select, switch baud rate, application reset, user data, set primary address) with valid arguments transmits exactly one telegram whose bytes are those the M-Bus specification defines for it, reports success, and hands the same bytes to the registered send observer. With an address, baud rate, subcode or data size outside the documented range it transmits nothing and reports failure; a failing transmission is reported as failure.",
 ["inputs","fault_sequences"],"all commands, all addresses (in and out of range), all argument values, transmission failures",
 "The tests never send anything.",
 [AX],[("commands","mbus_send_request_frame, mbus_send_ping_frame, mbus_send_select_frame, mbus_send_switch_baudrate_frame, mbus_send_application_reset_frame, mbus_send_user_data_frame, mbus_set_primary_address"),("transport send","mbus_tcp_send_frame, mbus_serial_send_frame")],
 ["frames seen by a simulated bus and by a socket peer, return values"])
p("P22","Multi-telegram read-out collects every telegram exactly once",
 "Reading out a slave returns the chain of all telegrams it sends, each exactly once and in order, toggling the frame-count bit only after a telegram was received correctly, stopping at the first telegram without more-records-follow or when the telegram limit (0 = none) is reached. Lost or damaged replies are re-requested with an unchanged frame-count bit up to the configured number of retries and then reported as failure; what the line carries behind a reply or a damaged reply is discarded; a failed read-out leaves no dangling or leaked telegrams. A single read sends one request to the slave, selecting it first if it is given by secondary address, and delivers its reply or reports failure.",
 ["histories","fault_sequences"],"all slaves with 1..n telegrams, all sequences of timeouts, damaged, foreign and undecodable replies, all retry and frame limits",
 "The tests never talk to a slave, real or simulated.",
 [AX],[("read-out loop","mbus_sendrecv_request"),("single read","mbus_read_slave"),("retry option","mbus_context_set_option")],
 ["requests seen by a simulated slave, returned chain, return value"])
p("P23","Select and probe report nothing, one slave or a collision correctly",
 "Selecting or probing with a secondary-address mask reports a single slave exactly when one slave acknowledged cleanly (and, when probing, answered with a decodable identity, which is then delivered as its full address), a collision when answers interfere or more than one arrives, nothing when no slave answers after the configured search retries, and an error for an invalid mask or failing transmission.",
 ["histories","fault_sequences"],"all slave populations and masks, all sequences of lost, damaged, unexpected and multiple answers, all retry settings",
 "The tests never talk to a slave.",
 [AX],[("selection","mbus_select_secondary_address"),("probing","mbus_probe_secondary_address"),("purging","mbus_purge_frames")],
 ["return value, delivered address, found-event callback, requests on the simulated bus"])
p("P24","Secondary scan finds every slave exactly once",
 "Scanning a secondary-address mask on a bus terminates and reports, once each and with its full address, exactly those slaves that match the mask and whose addresses are distinguishable by identification digits, for every population of slaves; masks that are not full secondary addresses are refused, and a transmission error ends the scan with failure.",
 ["histories","configurations","fault_sequences"],"all populations of slaves (including addresses that share long prefixes), all masks, all start positions, transmission failures",
 "The tests never scan.",
 [AX],[("scan recursion","mbus_scan_2nd_address_range"),("probe","mbus_probe_secondary_address")],
 ["found-event and progress callbacks, return value, requests on the simulated bus"])
p("P25","Reception separates echoes and stray frames as configured",
 "Receiving a frame delivers the first frame from the bus unless its direction is the one configured to be purged, in which case that single frame is discarded and the next one is delivered; with purging off nothing is discarded. Purging pending frames consumes valid and damaged frames until the bus is silent and reports whether anything was received, and every result code of the transport is passed on unchanged. A delivered frame carries the time of its reception.",
 ["histories","configurations"],"all purge settings, all sequences of received frames of either direction, damaged frames, timeouts and errors",
 "The tests never receive.",
 [AX,PR],[("reception","mbus_recv_frame"),("purging","mbus_purge_frames"),("direction","mbus_frame_direction")],
 ["delivered frame, return value, number of frames consumed from the simulated transport"])
p("P26","Contexts start in a defined state and accept only valid options",
 "A freshly created serial or TCP context has documented defaults, no observers and is not connected; setting an option stores it exactly when its value is in range (0-9 data retries, 0-9 search retries, one of the three purge modes) and otherwise fails leaving all settings unchanged. Connecting and disconnecting a null context, or sending and receiving through one, fails cleanly, as does disconnecting one that is not connected, and contexts can be created and freed in any order without interfering.",
 ["inputs","histories"],"all option/value pairs, all sequences of create/set/connect/disconnect/free on several contexts, null arguments",
 "The tests never create a context.",
 [AX,TCP,SER],[("context creation","mbus_context_tcp, mbus_context_serial, mbus_context_free"),("options","mbus_context_set_option"),("connection","mbus_connect, mbus_disconnect")],
 ["public fields of the context, return values"])
p("P27","TCP reception is independent of fragmentation and reports faults",
 "Receiving over TCP delivers exactly the telegrams the peer sent, one per call and in order, however the stream is split into segments or interrupted by signals; silence is reported as timeout, a closed connection as reset, undecodable bytes as invalid, other faults as error, and the receive observer sees exactly the bytes of the telegram. Sending writes exactly the packed telegram or reports failure.",
 ["schedules","inputs","fault_sequences"],"all sequences of telegrams and garbage, all segmentations, interrupted and failing system calls, closures at every byte",
 "The tests use no socket.",
 [TCP],[("receive loop","mbus_tcp_recv_frame"),("send","mbus_tcp_send_frame"),("connect and timeouts","mbus_tcp_connect, mbus_tcp_set_timeout_set")],
 ["result codes, delivered frames, observer callbacks, peer's received bytes"])
p("P28","Serial reception is independent of byte timing and reports faults",
 "Receiving over a serial line delivers exactly the telegram the line carried, however its bytes are grouped and with up to two pauses of one read time-out inside it; silence is reported as timeout, a line that stops inside a telegram or carries undecodable bytes as invalid, a failing device as error, and the receive observer sees exactly the bytes read. Sending writes exactly the packed telegram and returns once the line has transmitted it, or reports failure; connecting and setting the speed accept only the documented baud rates, and how the line is then set up depends only on the rate last set; opening the line does not tie the program to it as its controlling terminal.",
 ["schedules","inputs","fault_sequences"],"all telegrams and garbage, all groupings of bytes, empty reads and read errors at every point, all baud rates",
 "The tests open no serial device.",
 [SER],[("receive loop","mbus_serial_recv_frame"),("send","mbus_serial_send_frame"),("line setup","mbus_serial_connect, mbus_serial_set_baudrate")],
 ["result codes, delivered frames, observer callbacks, bytes on the other end of a pseudo terminal"])
p("P29","Hexadecimal input is converted exactly",
 "Converting hexadecimal text to bytes turns each pair of hexadecimal digits (either case, whitespace between pairs ignored) into one byte in order, stops at the first character that is not part of such a pair or at the end of input or destination, returns the number of bytes written (the rest of the destination is zeroed) and never touches memory outside the destination.",
 ["inputs"],"all texts (digits, whitespace, other characters, NUL), all source and destination sizes",
 T110+", all of them well-formed hexadecimal text.",
 [AX],[("conversion","mbus_hex2bin")],["returned count and destination bytes"])
p("P30","Decoding depends on nothing but the telegram",
 "What decoding and rendering return for a telegram depends only on that telegram: not on telegrams decoded before, on errors that occurred before, on repeated calls, or on the debug switch, and rendering does not modify the decoded data.",
 ["histories","inputs"],"all histories of decoding and rendering calls over arbitrary other telegrams before the observed one",
 "Each test runs one telegram in a fresh process.",
 [PR,AX],[("static buffers and tables","mbus_data_record_value, mbus_vib_unit_lookup, mbus_data_product_name, mbus_decode_manufacturer"),("debug switch","mbus_parse_set_debug")],
 ["all decoding outputs in a fresh process versus after a history"])
p("P31","Primary-address scan tools report exactly the answering slaves",
 "The primary-address scan programs report a device at precisely those addresses from 0 to 250 where a single slave acknowledges, a collision where answers interfere or multiply, nothing elsewhere, repeat an unanswered ping as often as asked, and with -d show every telegram sent and received in order, for every population of slaves.",
 ["configurations","fault_sequences"],"all populations of primary addresses, collisions, lost answers, retry settings, both transports' programs",
 "The programs under bin/ are not run by any test.",
 ["bin/mbus-tcp-scan.c","bin/mbus-serial-scan.c",AX],[("scan loop","main / ping_address in the scan programs")],
 ["standard output and exit status of the program against a simulated bus"])
p("P32","Read-out and control tools do what their arguments say",
 "The read-out programs print the XML of exactly the addressed slave's reply (primary or secondary address, single or multi telegram) and exit successfully, and exit with failure and no XML when selection, request, reception or decoding fails; the select, set-address, reset, baud-rate, secondary-scan and raw-send programs send precisely the commands their arguments name, print success only if the slave acknowledged, end with failure if it does not answer or cannot be reached, and refuse wrong argument counts, ports, rates, masks and new addresses out of range without touching the bus; with -d every telegram sent and received is shown in order, without it none.",
 ["inputs","configurations","fault_sequences"],"all argument vectors, slave populations, replies and faults of the simulated bus",
 "The programs under bin/ are not run by any test.",
 ["bin/mbus-tcp-request-data.c","bin/mbus-serial-request-data.c","bin/mbus-tcp-request-data-multi-reply.c","bin/mbus-serial-request-data-multi-reply.c","bin/mbus-tcp-select-secondary.c","bin/mbus-serial-set-address.c","bin/mbus-tcp-raw-send.c"],
 [("program flow","main of each program")],["standard output, exit status and bus traffic of the program against a simulated bus"])
p("P33","Slaves are identified by the published lists",
 "The product name shown for a slave is the one published for its manufacturer and version (for some manufacturers also its medium or the leading digits of its identification), and empty for every other slave; the medium name is the published text for each of the 256 medium codes. The same names appear in the XML of a telegram, plain and normalized.",
 ["inputs"],"all manufacturer codes, versions, media and identification numbers",
 "The recorded telegrams contain a few of the listed products and media.",
 [PR],[("product names","mbus_data_product_name"),("media","mbus_data_variable_medium_lookup")],
 ["returned text and the ProductName / Medium elements of the XML"])
p("P34","Traces and printouts show exactly the bytes and fields",
 "The hex dumps of sent and received telegrams show the time (UTC wherever the program runs), the direction and every byte in order with the right count, and the frame and data printouts show every field of the telegram (each frame of a chain, the error code, the counters of a fixed structure, header and records of a variable structure) with its value; printing something that is not a telegram fails.",
 ["inputs"],"all telegrams, chains and decoded structures, all byte strings and lengths for the dumps",
 "No test reads the printed diagnostics.",
 [PR,AX],[("dumps","mbus_hex_dump, mbus_dump_send_event, mbus_dump_recv_event"),("printouts","mbus_frame_print, mbus_frame_data_print, mbus_data_variable_print, mbus_data_fixed_print, mbus_data_variable_header_print, mbus_data_error_print")],
 ["text on standard output and standard error, return values"])
p("P35","Formatting helpers keep within the caller's buffer and lookups are total",
 "The text helpers of the interface (XML escaping, binary, manufacturer specific and string decoding) write a terminated prefix of their exact output that fits the buffer size given, whatever that size (at least one byte); every lookup function answers every argument with a text or the documented number; the error message is the beginning of the last one set, whole up to 255 characters, until it is reset; record lists keep their order and new structures start empty; the slave register answers every index without leaving its table.",
 ["inputs"],"all byte strings, lengths and buffer sizes, all lookup arguments, all append sequences",
 "The tests call these functions only through the telegram programs, with large buffers.",
 [PR],[("helpers","mbus_str_xml_encode, mbus_data_bin_decode, mbus_data_manufacturer_specific_decode, mbus_data_str_decode"),("lookups","mbus_dif_datalength_lookup, mbus_data_*_lookup, mbus_vif_unit_lookup, mbus_data_error_lookup"),("messages","mbus_error_str, mbus_error_str_set, mbus_error_reset"),("structures","mbus_data_record_new, mbus_data_record_append, mbus_frame_new, mbus_slave_data_get")],
 ["buffer contents around the caller's region, returned texts, list order"])
p("P36","Missing arguments are refused",
 "Every public function called with a missing handle, frame, record, buffer or result pointer (or a zero-sized buffer) reports failure through its return value (or does nothing if it returns nothing), sends nothing on the bus, leaks nothing and leaves its other arguments unchanged.",
 ["inputs"],"all public functions and which of their arguments are missing, with arbitrary valid values for the others",
 "The tests pass no null argument.",
 [PR,AX,TCP,SER],[("guards","every exported mbus_* function that accepts a pointer")],
 ["return values, bus traffic, allocations, contents of the remaining arguments"])
p("P37","Contexts are independent",
 "What an operation on one context does, returns and transmits depends only on that context and its bus: not on operations carried out on other contexts before it, between its own steps (from transport functions and callbacks) or after them, nor on the order in which contexts are created and released.",
 ["histories","schedules"],"all sequences of operations over several contexts of both kinds, all nestings of one context's operation inside another's, all buses behind them",
 "The tests never create a context.",
 [AX,TCP,SER],[("operations","mbus_read_slave, mbus_sendrecv_request, mbus_probe_secondary_address, mbus_scan_2nd_address_range, mbus_recv_frame, mbus_purge_frames"),("settings","mbus_context_set_option, mbus_register_*")],
 ["results, telegrams, callbacks and settings of each context, together and alone"])
p("P38","Transports are interchangeable",
 "Every operation gives the same results, the same telegrams on the line and the same observer calls over a TCP connection, over a serial line and over any other transport put into the context, however the bytes arrive; connecting after a failure or a disconnection starts afresh, failing connections report failure, and a released context leaves no descriptor and no memory behind.",
 ["histories","schedules","fault_sequences"],"all sequences of operations (connect, disconnect, read-out, selection, scanning, commands, purging), all slaves and answers, all fragmentations, closed connections and unreachable peers",
 "The tests open no connection.",
 [AX,TCP,SER],[("transports","mbus_tcp_connect, mbus_tcp_send_frame, mbus_tcp_recv_frame, mbus_tcp_disconnect, mbus_serial_connect, mbus_serial_send_frame, mbus_serial_recv_frame, mbus_serial_disconnect"),("operations","mbus_read_slave, mbus_sendrecv_request, mbus_scan_2nd_address_range")],
 ["results, bytes at the other end of a loopback connection and of a pseudo terminal, observer calls, open descriptors"])
out=''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P)
open('/verif/properties.jsonl','w').write(out)
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print(len(P))
