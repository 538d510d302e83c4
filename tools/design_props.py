# per property: (generator/domain, oracle, limits, why)
P = {
'P01': ('Valid telegrams of all kinds; 1-3 mutations with and without repaired checksum; for one telegram every value of one byte; random bytes; used frame structures', 'a grammar of the link layer written in the check; every field of an accepted telegram against the bytes', 'buffers to 300 bytes', 'the 2^8n single and multiple byte changes of a telegram'),
'P02': ('Valid telegrams cut at every prefix; a reader that asks for what the parser says, or gets fewer bytes; impossible headers; trailing bytes', 'reported number is positive, never beyond the end, the reader ends exactly at the telegram', 'one telegram at a time', 'every split of a stream'),
'P03': ('Frames built field by field, 0-252 data bytes, buffers of every relation to the size, packed again after changes; valid byte strings', 'round trip both ways; bytes behind the buffer (redzone) untouched', '-', 'sizes and fields between those recorded'),
'P04': ('Byte buffers, telegrams with well-formed, truncated, mutated, limit-filling, recorded and random data; texts without terminator beyond the interface', 'ASan/UBSan, a watchdog, termination of every string handed out', 'pure memory safety: contents are judged by P07-P19', 'the space of malformed records'),
'P05': ('Sequences of 1-6 calls incl. failing ones, reused result structures, chains, contexts, bus operations', 'live-block count returns to its start; ASan for double free', '-', 'error paths x histories'),
'P06': ('One operation; each of its allocations failed in turn, then each suffix', 'no crash, result is failure or equals the unfailed one, nothing leaks, the next call works', 'complete over the allocations of the generated operation', 'every fault point'),
'P07': ('Headers and record sequences of all DIF/VIF classes, chains up to and over ten extensions, custom texts, LVAR classes, fillers, manufacturer data; truncations and mutations', 'reference splitter', '-', 'record grammars'),
'P08': ('Every DIF with 0-10 extensions', 'concatenated bit fields; four renderings agree', '-', '2^70 chains'),
'P09': ('One record of every data type with boundary, decimal and random data under value-changing and other units', 'the encoding\'s definition, written in the check', 'undefined BCD digits not judged (nibble A-F other than the sign)', 'values'),
'P10': ('All primary, FB and FD codes with/without extension bit, custom texts, prefixes', 'tables written from EN 13757-3', 'names as in the published expected outputs', 'the tests touch about a quarter of the codes'),
'P11': ('As P10 with generated raw values and corrections', 'factor tables; metamorphic: same amount in two encodings', 'relative 1e-11; VIF 7F/FF corrections not judged', 'code x value x correction'),
'P12': ('16-byte replies with generated fields; every other length', 'fixed-structure tables', '-', 'unit codes and signs not recorded'),
'P13': ('Frames with every C and CI, error replies, short data, used structures', 'classification and message table', '-', 'combinations of C, CI and length'),
'P14': ('Integers, byte patterns of 1-8 bytes, floats, manufacturer codes and arbitrary strings', 'mathematical value; inverse', 'encoders: -3/-2/-1 conventions not prescribed beyond failure', 'numeric boundaries'),
'P15': ('Bit fields uniform and boundary, sizes 0-8', 'bit fields', '-', '2^48 patterns'),
'P16': ('Generated replies, full telegrams, texts of escaped characters up to the limits, joined lists, timestamps', 'strict XML reader, element by element against generator and accessors', 'control characters render as space (documented)', 'buffer growth depends on sizes no recorded telegram has'),
'P17': ('As P16, normalized', 'XML reader against the record\'s normalization', 'number format to the printed precision', 'as P16'),
'P18': ('Chains of 1-12 telegrams of all kinds, malformed ones anywhere', 'XML reader against the generated telegrams', 'a first fixed/error telegram gives its own document only', 'chains are absent from the tests'),
'P19': ('Decodable replies of all kinds, hand-made lists too large', 'round trip; redzone behind the frame', 'custom texts with NUL excluded', 'no test serialises'),
'P20': ('Arbitrary headers, masks, strings, integers', 'byte order of the selection telegram written out', '-', 'digits A-F, wildcards'),
'P21': ('One command with generated arguments over simulated, socket and terminal transport, with failures', 'telegrams of EN 13757-2/3 byte by byte', '-', 'no test drives a bus'),
'P22': ('1-12 telegrams with a fate per request, all options; single reads', 'protocol model', 'late replies judged with purge NONE only', 'histories'),
'P23': ('Masks; per attempt one answer of the bus; identities; echoes; options', 'model; follow-up selection must be clean', 'reception error as NOTHING or ERROR', 'histories'),
'P24': ('Populations 0-12 sharing prefixes, wildcard slaves, masks, collisions of three kinds, losses within retries', 'set of matching slaves; each once; termination', 'slaves indistinguishable by digits may be missed', 'populations'),
'P25': ('Queues up to 400 of good, damaged, absent frames; receive and purge sequences', 'queue model', '-', 'histories'),
'P26': ('1-25 operations on up to four contexts', 'settings model after every operation', '-', 'histories'),
'P27': ('Streams cut into segments with interrupts, time-outs, errors and closures; partial writes; names with several addresses', 'stream model', 'ECONNRESET as ERROR or RESET', 'schedules'),
'P28': ('Lines with grouped bytes, pauses, silence, device errors; all baud rates', 'line model', '-', 'schedules'),
'P29': ('Texts of pairs, whitespace, other characters; all size relations', 'reference converter', '-', 'sizes and characters'),
'P30': ('One telegram, a history of 1-8 others, debug switch, used structures', 'a process that never used the library (zygote fork)', '-', 'histories'),
'P31': ('Runs of both primary scan programs, populations 0-60, faults, invalid arguments', 'model of output, exit status and telegrams', 'exit status after a transmission failure not judged', 'no test runs the bus programs'),
'P32': ('Runs of all other bus programs', 'model of each command', 'non-numeric addresses (atoi) not judged', 'as P31'),
'P33': ('Headers around every entry of the product list', 'list written out in the check', 'names as published', 'entries not recorded'),
'P34': ('Traces and printouts of generated telegrams', 'text read back', 'layout (spaces) tolerant', 'printing is untested'),
'P35': ('Helpers with arbitrary bytes into exactly sized buffers; lookups; lists to 600 records', 'reference helpers, redzones', 'buffer sizes from 1', 'sizes'),
'P36': ('Sequences of calls with one argument missing (103 combinations), also on real lines with bytes waiting', 'failure value, nothing sent/consumed/leaked', '-', 'combinations'),
'P37': ('Operations of 2-3 contexts dealt and nested into one another, also from callbacks', 'the same operations alone', 'error text and TCP time-out are process-wide by design', 'interleavings (owned by the harness: nesting at transport calls)'),
'P38': ('Operation sequences over loopback TCP, pseudo terminal and simulated bus', 'differential: results, telegrams, observers, descriptors', 'damage a stream reader consumes as one unit', 'schedules'),
}
