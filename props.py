"""The properties: text for properties.jsonl / MANIFEST.json and the parameters of
each check (bounds, time budgets).  gen.py writes the two files from this table."""
INP, HIST, CONF, FAULT = "inputs", "histories", "configurations", "fault_sequences"
PROPS = {}


def P(id, title, statement, over, text, tests, files, mech, bounds, outside="", assumptions=(), observe=(), **kw):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=text, tests=tests, files=files, mech=mech, bounds=bounds,
                     outside=outside, assumptions=list(assumptions), observe=list(observe), **kw)


_SY = ["src/ISEGY.cpp", "src/CommonSEGY.cpp"]
_OY = ["src/OSEGY.cpp", "src/OSEGYRev0.cpp", "src/OSEGYRev1.cpp", "src/OSEGYRev2.cpp", "src/CommonSEGY.cpp"]

P("C01", "SEG-Y samples are decoded to the values their bytes represent",
  "For every SEG-Y sample format code (IBM float, IEEE float and double, and signed and unsigned 1, 2, 3, 4 and 8 byte integers) and both byte orders, reading a trace returns for each sample exactly the number its bytes represent in that format. Samples come in file order, and their number is the trace's number of samples.",
  [INP, CONF], "all sample byte patterns, every format code, both byte orders",
  "the tests read two fixed files with one format each; 2^8..2^64 byte patterns per sample remain",
  _SY + ["include/util.hpp"], ["per-format sample readers chosen from the binary header"],
  "13 format codes x 2 byte orders; 2 traces x 3 samples, every sample byte symbolic (format 1: one symbolic sample at each of the 6 positions); traces of 255..65535 samples with symbolic bytes at both ends and in between",
  "long traces with other than a few samples arbitrary; more than 2 traces (C07)",
  observe=["ISEGY::read_trace().samples()"])
P("C02", "SEG-Y samples are encoded so that the bytes represent the given values",
  "For every SEG-Y sample format code and both byte orders, a written trace stores each sample as the bytes that represent it in that format: a value the format can hold exactly is stored exactly, and an IBM float is stored within one unit of its 24-bit fraction. A value too small or too great for an IBM float is stored as one of the smallest or as the greatest number of its sign. Samples are stored in the order given.",
  [INP, CONF], "all representable sample values, every format code, both byte orders",
  "the tests write one format and compare a handful of values",
  _OY, ["per-format sample writers"],
  "13 format codes x 2 byte orders; 2 traces x 2 samples; every value representable in the format is symbolic (IBM: sign, 24-bit fraction symbolic, exponent by case split, leading zero digits, magnitudes below and above the IBM range); traces of 255..32767 samples with a few symbolic ones",
  "values an integer format cannot represent (fractions, overflow); IBM exponents outside the case split; infinities and NaN as IBM floats",
  observe=["bytes of the written file"])
P("C03", "The reader reports every field of the SEG-Y binary file header",
  "For any bytes of the binary file header and either byte order (marked or absent marker), the reader's binary header holds every field with the value of its bytes, including the fields that exist only in revision 2 when the file is revision 2 or later. A header with a negative number of additional trace headers is refused instead.",
  [INP, CONF], "all 400 header bytes, three byte order markings",
  "the tests look at a few fields of two files",
  _SY, ["binary header decoding in the file's byte order"],
  "one file; all 400 header bytes symbolic except format code (each of the 13 in turn), the byte order marker (absent, big, little) and counts that change the layout (small ranges)",
  "layout counts (extended text headers, trailer stanzas, additional trace headers) beyond the small ranges",
  observe=["ISEGY::binary_header()"])
P("C04", "The SEG-Y writers store the caller's binary file header field by field",
  "The binary file header in a written file holds the caller's value of every field at its place in the chosen byte order, for every writer. Only values the writer is documented to determine differ: the format code when it is not given, the revision and byte order marks, and the counts of text blocks.",
  [INP, CONF], "all field values, three writers, three byte order markings",
  "the tests write one header", _OY, ["write_bin_header and the setters it uses"],
  "three writers; every field symbolic except counts that size the file (samples 0..3, additional trace headers 0..1) and format code (13 in turn)",
  "sample counts over 3", observe=["bytes 3200..3599 of the written file"])
P("C05", "A SEG-Y trace header read from file holds every mapped word with its value",
  "For any trace header bytes and either byte order, the header of a read trace holds, for every word of the trace header mapping in use (default or user given, main header and additional headers), the value its bytes represent in the word's type. Words outside the mapping do not appear.",
  [INP, CONF], "all header bytes, default and user mappings, both byte orders",
  "the tests use the default mapping on two files", _SY, ["map driven decoding of trace headers"],
  "2 traces; all 240 bytes of each header symbolic for the default mapping, with 0..2 additional headers; user mappings of one word of each of the 13 types at 6 offsets (every offset in thorough), and of two words",
  "user mappings of more than two words", observe=["ISEGY::read_trace().header()", "ISEGY::read_header()"])
P("C06", "A SEG-Y trace header is written with every mapped word at its place",
  "Writing a trace stores every word of its header that the mapping names at the mapped offset, in the mapped type and the file's byte order, in the main header and in every additional header; words not in the trace header and bytes outside the mapping are zero. An integer word accepts a value given as floating point and the other way round.",
  [INP, CONF], "all header values, default and user mappings, both byte orders, three writers",
  "the tests write a few words with the default mapping", _OY, ["map driven encoding of trace headers"],
  "3 writers; all words of the default mapping symbolic (0..2 additional headers); user mappings of one word of each of the 13 types at 5 offsets (every offset in thorough); words whose value the type can hold",
  "values out of the range of the word's type", observe=["trace header bytes of the written file"])
P("C07", "A SEG-Y reader delivers exactly the traces of the file, once, in file order",
  "For every layout (fixed and variable trace length, any revision, extended text headers, additional trace headers, data start offset, trailer stanzas), repeated reading until no trace is left delivers every trace of the file exactly once and in file order, whatever mix of header-only and full reads is used. Two readers of one file do not influence each other.",
  [INP, CONF, HIST], "all file layouts, lengths and read sequences",
  "the tests read two files from start to end", _SY, ["current position and end of data bookkeeping"],
  "up to 3 traces of 0..3 samples (plus two traces of 20000..70000 samples, up to 262136 bytes), every sequence of header-only/full reads, 0..2 extended text headers, 0..2 additional headers, 0..2 trailer stanzas, revisions 0..2; sample bytes and header words symbolic; 256 and 300 traces (1100 in thorough) with symbolic words in a few",
  "numbers of traces in between; variable length traces of more than 32767 samples",
  observe=["ISEGY::has_trace/read_trace/read_header"])
P("C08", "The reader reports all text headers, extended text headers and trailer stanzas",
  "The reader returns the text header, every extended text header and every trailer stanza of the file byte for byte and in order, whether their number is given in the binary header or the last one is marked, and still delivers the traces between them.",
  [INP, CONF], "all block contents and counts", "the tests read files without trailers", _SY, ["text header and trailer stanza location"],
  "0..3 extended headers, 0..3 trailer stanzas, counted and marked, fixed and variable traces; symbolic bytes at both ends of every block and around the marker, one block fully symbolic; 12, 100 and 129 blocks (256 in thorough); long traces (9000..70000 samples, up to 262136 bytes) before the stanzas",
  "other numbers of blocks; symbolic bytes in the middle of blocks other than the first (a marker may hide only there)",
  observe=["ISEGY::text_headers()", "ISEGY::trailer_stanzas()"])
P("C09", "A SEG-Y writer lays out the file completely, in order, and announces that layout",
  "A written file is the text header, the binary header, the extended text headers, the traces in the order written and the trailer stanzas, each of its exact size and unchanged, and nothing else; the binary header announces the revision, and the numbers of extended text headers and trailer stanzas in the file. Without a given text header the file starts with a complete default one (EBCDIC in revision 0, ASCII in later ones) that names the revision.",
  [INP, CONF, HIST], "all block counts, contents and sequences of writes", "the tests look at sizes of a few files", _OY, ["writer constructors, write_trace, stanza output"],
  "0..2 extended headers, 0..2 stanzas, 0..3 traces of 0..3 samples, 0..2 additional headers, both byte orders, fixed and variable length; block ends symbolic; 12 and more blocks, 256 and 300 traces, traces of up to 32767 samples",
  "numbers in between; revision 0 with an explicit header of another revision (stored as given)",
  observe=["bytes of the written file"])
P("C10", "What a SEG-Y writer stored is what a reader of that file returns",
  "A file written with any of the SEG-Y writers and read back gives the same text headers, binary header, trace headers, samples and trailer stanzas, for every format code and byte order, as far as the format can represent the values.",
  [INP, CONF, HIST], "all contents, format codes, byte orders and writers", "the tests round-trip one configuration", _SY + _OY, ["writers and reader agree on one layout"],
  "3 writers x 13 formats x 2 byte orders, 2 traces of up to 3 samples, 0..2 extended headers, 0..2 stanzas; header words and samples symbolic (IBM: one symbolic sample); many traces (260) and long traces (257..65535 samples) with a few symbolic samples",
  "long traces with other than a few samples arbitrary", observe=["ISEGY on the written file"])
P("C11", "Invalid SEG-Y parameters are refused with an exception, valid ones accepted",
  "Opening for reading or writing with an unknown format code or byte order mark, a text block that is not 3200 bytes, a trace header mapping whose words overlap or leave the header, mapping names of wrong length or a wrong number of additional mappings throws an exception with a message; so do writing a trace whose number of samples disagrees with the file and asking for an unknown sort key. Parameters without such a fault are accepted.",
  [INP, CONF], "all parameter values", "the tests use valid parameters only", _SY + _OY + ["src/ISEGYSorted1D.cpp", "src/Exception.cpp"], ["checks in constructors and write_trace"],
  "every 16-bit format code and 32-bit marker; block sizes around 3200; mappings of one to three words of all types at every (symbolic) offset; names of 0..10 characters; 1..4 maps; 0..5 samples against 1..3",
  "mappings of more than three words", observe=["constructors", "OSEGY::write_trace"])
P("C12", "Reading arbitrary bytes as SEG-Y is memory safe and comes to an end",
  "Whatever the bytes of a file, opening and reading it as SEG-Y to the end (in file order or sorted) touches no memory outside its buffers, throws nothing but standard exceptions, and stops after at most as many traces as the file can hold.",
  [INP], "all file contents within the size bound", "the tests read two well-formed files", _SY + ["src/ISEGYSorted1D.cpp"], ["size and position checks before reads"],
  "files of up to 4100 bytes plus text blocks; header bytes symbolic, layout counts at boundary values and small ranges (including negative and huge ones)",
  "sample counts over a few thousand except the listed boundary values", observe=["ISEGY", "ISEGYSorted1D"])
P("C13", "A SEG-Y file cut short never yields a trace that is not completely in it",
  "When a file is cut at any byte, every trace a reader returns lies completely in what is left and equals the original one, and reading to the end throws an exception unless the cut falls exactly between traces.",
  [FAULT, INP], "every cut position", "no test reads a truncated file", _SY, ["stream state checks"],
  "files of 2 traces (fixed and variable length, with and without an extended text header), cut at every 3rd..150th byte and at each byte around borders (every byte in thorough); contents symbolic; one trace of hundreds of samples",
  "files with trailer stanzas; a header-only read as the last operation before the cut is noticed", observe=["ISEGY"])
P("C14", "Sorted SEG-Y reading gives every trace once, in key order, stable",
  "Reading a file sorted by a header word delivers every trace of the file exactly once in ascending order of that word, traces of equal key in file order; asking for the traces of a key delivers exactly those with that key (up to the requested number) from the first one on.",
  [INP, HIST], "all key values and read/lookup sequences", "the test sorts one file", ["src/ISEGYSorted1D.cpp", "src/ISEGY.cpp"], ["key to position multimap and its iterator"],
  "up to 4 traces (5 in thorough) with symbolic integer, 64-bit and floating keys, fixed and variable length, mixed header-only/full reads; lookups with a symbolic key; 20 traces (60 in thorough) with one symbolic key, 120 and 257 traces of equal key",
  "many traces with several arbitrary keys; NaN keys", observe=["ISEGYSorted1D"])
P("C15", "EBCDIC and ASCII conversions are code page 037 and its inverse",
  "Converting text from EBCDIC to ASCII maps each byte by code page 037 and the opposite conversion is its inverse, for every byte value and string length; lengths and order are kept.",
  [INP], "all byte strings", "the tests convert one header", ["src/CommonSEGY.cpp"], ["two 256 byte tables"],
  "24 symbolic bytes at once; all 256 values in every table place; lengths 0..3200", "none within bytes; lengths other than the sampled ones",
  observe=["CommonSEGY::ebcdic_to_ascii/ascii_to_ebcdic"])
P("C16", "BCD and raw number conversions are exact and keep neighbouring half bytes",
  "Reading a binary coded decimal number of n half bytes gives its decimal value, writing one stores exactly its decimal digits and leaves neighbouring half bytes unchanged, and both advance past whole bytes only; writing and reading raw numbers, byte swapping and rounding up are exact.",
  [INP], "all values and lengths", "no test calls them directly", ["include/util.hpp"], ["from_bcd, to_bcd, read, write, swap, ceil"],
  "lengths 1..12 half bytes, both alignments; reading: four neighbouring arbitrary digits at every place; writing: all values of up to 3 digits, wider ones with one arbitrary digit per place",
  "writing numbers of more than 3 digits with several digits arbitrary at once", observe=["util.hpp functions"])
P("C17", "Trace and trace header objects hold exactly what they were given",
  "A trace returns the header words and samples it was made of; looking up a word gives its value or nothing; setting a word changes that word only; copies are independent of the original and assignments replace the contents.",
  [INP, HIST], "all values, sizes and operation orders", "the tests build one trace", ["src/Trace.cpp", "include/Trace.hpp"], ["Trace and Trace::Header value semantics"],
  "0..4 words, 0..3 samples, all values symbolic, copy/move/assign/set sequences", "more words or samples", observe=["Trace", "Trace::Header"])
P("C18", "A SEG-Y writer without a binary header takes layout from the first trace",
  "When no binary header is given, the writer takes the number of samples and the sample interval from the first trace written, stores them in the binary header, and the finished file reads back completely; a first trace that lacks them, or whose number of samples or interval does not fit in 16 bits, or whose interval is below one, is refused with an exception.",
  [INP, CONF, HIST], "all values of the two words, writers, trace sequences", "the tests give a full header", _OY, ["first trace handling in write_trace"],
  "3 writers, 0..2 extended headers, 0..2 traces of 0..3 samples, interval symbolic, integer or floating, absent or out of range; a first trace of 32767 and of 32768 samples", "other long traces",
  observe=["written file", "ISEGY on it"])

_ID = ["src/ISEGD.cpp", "src/CommonSEGD.cpp", "include/CommonSEGD.hpp"]
_OD = ["src/OSEGD.cpp", "src/OSEGDRev2_1.cpp", "src/CommonSEGD.cpp"]

P("C19", "The SEG-D reader reports every field of general header block 1",
  "For any general header block 1, ISEGD::general_header() holds every field of the block with the value of its bytes: decimal (BCD) fields as decimal numbers, binary fields as integers, half byte fields separately, the general constants digit by digit, the scan interval and record length in their units. A file whose format code is one of the 14 known ones is accepted, any other is refused with an exception.",
  [INP, CONF], "all bytes of the block and all format codes",
  "the tests open a few files of one format", _ID, ["read_general_header"],
  "32 byte block: every pair of neighbouring bytes arbitrary in turn, file number, date, record type and length arbitrary together; every 16-bit format code; 0..3 scan types, 0..2 sets, 0..2 skew, extended and external blocks; revisions 0..3",
  "BCD half bytes above 9; layout counts over 3 (see C23)", observe=["ISEGD::general_header()"])
P("C20", "The SEG-D reader reports every field of general headers 2, 3 and N",
  "For files of revision 0 to 2 the reader reports every field of general header 2 and of every general header N (source line and point number with sign and fraction, indexes, phase control, type of vibrator, phase angle, block and source set number), the blocks N ordered by block number. For revision 3 files it reports every field of general headers 2 and 3. Each value is that of the bytes at the place the SEG-D standard names, binary fields most significant byte first.",
  [INP, CONF], "all bytes of these blocks", "the tests look at a few fields of a few files", _ID, ["read_general_header2, read_general_header3, read_general_headerN"],
  "all 32 bytes of each block symbolic; revisions 0..3; 0..2 general headers N (3 in thorough) in any order of block numbers",
  "two general headers N with the same block number; more than three of them", observe=["ISEGD::general_header2/3/N()"])
P("C21", "The SEG-D reader reports the additional general headers of revision 3 by type",
  "In a revision 3 file the additional general header blocks are recognised by their type byte, in whatever order and number they come: each of the 24 types defined by the standard (10..19, 1F, 20, 21, 41, 43..45, 50..52, 55, 56, 60, 61: vessel, survey, client, job, line, the energy sources, additional source information, auxiliary channels, coordinate reference, positions, orientation, measurement and so on) is reported by its getter with every field equal to its bytes, and a type that is not in the file is reported as absent. Blocks of other types are skipped without disturbing the rest.",
  [INP, CONF], "all bytes of every block type, orders and numbers of blocks", "the tests read no such block", _ID, ["block type switch and the per-type readers"],
  "every type alone, and with its neighbour in both orders, all 32 bytes symbolic; 12 blocks; all 24 with an extended block count; an unknown type in between; a type twice",
  "other orders of more than two blocks", observe=["ISEGD::general_header_*() of the block types"])
P("C22", "The SEG-D reader reports every field of every channel set header",
  "For each scan type and channel set of the file, channel_set_headers() holds a header with every field equal to the value of its bytes, in the 32 byte layout of revisions 0 to 2 (times, descale exponent with sign and fraction, channels, type, subscans, gain, filters, extended number, header extensions, stacks, streamer, array forming) and in the 96 byte layout of revision 3. Scan types and channel sets are reported in file order.",
  [INP, CONF], "all bytes of the channel set headers, revisions", "the tests look at a few fields", _ID, ["read_channel_set_header"],
  "1..2 scan types x 1..2 channel sets (3x3 in thorough), all bytes symbolic; revisions 0..2 (32 bytes) and 3 (96 bytes); number of sets given directly and by the extended field",
  "more sets", observe=["ISEGD::channel_set_headers()"])
P("C23", "The SEG-D reader finds every header block for any block counts",
  "For any numbers of additional general header blocks, scan types, channel sets, skew blocks, extended and external header blocks, given in general header 1 or (where that holds FF) in general header 2, the reader takes each block from its place: extended and external header blocks are reported byte for byte, the channel sets are the announced ones and skew blocks are skipped. The first trace is the one right after the last header block.",
  [INP, CONF], "all counts and their encodings", "the tests read files of a few layouts", _ID, ["reading of headers before the traces"],
  "each count 0..2 (3 in thorough) in combination, by either encoding, revisions 0..3; extended and external blocks symbolic; counts of 10, 99, 100 and more with one symbolic block",
  "counts in between", observe=["ISEGD"])
P("C24", "A SEG-D trace header and its standard extension are reported word by word",
  "The header of a trace read from a SEG-D file holds every word of the 20 byte trace header (file number, extended when the short one is FFFF; scan type; channel set, extended when given; trace number; timing words; extensions; skew; edit; time break; extended file number) and of the standard first extension (receiver line, point and index, extended values when given, number of samples, sensor type, and the words of revision 3), each with the value of its bytes, and no other words. A trace whose scan type or channel set the record does not have is refused with an exception.",
  [INP, CONF], "all trace header bytes, revisions", "the tests look at a few words of a few traces", _ID, ["read_trace_header, standard extension"],
  "20 byte header and 32 byte extension symbolic (words that select scan type and channel set in small ranges, or any value with a refusal as answer); 0..2 extensions (3 in thorough; single counts up to 255); scan types up to 99 and channel sets of several digits; revisions 0..3",
  "several traces (C27)", observe=["ISEGD::read_trace().header()"])
P("C25", "SEG-D trace header extensions are reported by the caller's maps",
  "When the caller gives maps for the trace header extensions, the first map describes the first extension and so on: every mapped word is reported with the value its bytes represent in the mapped type and at the mapped offset, and no other words. Fewer or more maps than extensions do no harm, the samples start after the last extension, and a mapped word SAMP_NUM gives their number. A map with a word that leaves the 32 bytes or overlaps another is refused with an exception, any other is accepted.",
  [INP, CONF], "all extension bytes, maps, and numbers of extensions", "the tests use the library's own maps on a few traces", _ID, ["map driven decoding of extensions"],
  "13 word types at 4 offsets (every offset in thorough), all pairs of neighbouring types, extension bytes symbolic; 0..3 extensions against 1..3 maps; the library's own maps",
  "maps of many words other than the library's own", observe=["ISEGD::read_trace().header()"])
P("C26", "SEG-D samples are decoded to the values their bytes represent",
  "For each of the 14 SEG-D format codes (8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, and the little endian 9036, 9038, 9058, 9080) every sample of a read trace equals the number its bytes represent in that format times two to the descale exponent of the trace's channel set; samples come in file order and in the announced number. A file of another format is refused with an exception.",
  [INP, CONF], "all sample bytes, formats, descale exponents", "the tests read files of two formats", _ID, ["per-format sample readers"],
  "14 formats x revisions 2 and 3; 3 samples (5 in thorough; 8015: 1..6), all bytes symbolic; descale exponents 0, 3, 1, -1, -5, 6 and fractional ones; two channel sets; traces of 255..1001 samples in all formats and of 65537 in two, a few samples symbolic",
  "other descale exponents; for 8015, 8022, 8024, 8042, 8044 the library's own reading of exponent and fraction is the reference", observe=["ISEGD::read_trace().samples()"])
P("C27", "A SEG-D reader delivers exactly the traces of every record, once, in file order",
  "Reading while has_record() and has_trace() say so delivers every trace of every record of the file exactly once and in file order, with its header words and samples; the headers reported before a trace is read are those of its record. This holds for records of different layout, revision and format and with general trailers between or after them, and two readers do not influence each other.",
  [INP, CONF, HIST], "all record layouts and read sequences", "the tests read a few files from start to end", _ID, ["position bookkeeping, next record"],
  "up to 3 records (4 in thorough) of up to 8 traces, 0..3 trailer blocks, mixed revisions 0..3 and formats, traces in both orders of channel sets; two readers interleaved in any order for 4 steps (8 in thorough); 12 records, 101..300 channels (1100 in thorough), 99 and 300 trailer blocks",
  "numbers in between; records without any trace", observe=["ISEGD::has_trace/has_record/read_trace"])
P("C28", "Reading arbitrary or cut bytes as SEG-D is memory safe and invents no traces",
  "Whatever the bytes of a file, opening and reading it as SEG-D touches no memory outside its buffers, throws nothing but standard exceptions, ends, and only returns traces that lie completely in the file. Reading to its end a file that was cut short in its headers or in a trace throws an exception.",
  [INP, FAULT], "all contents and cut positions within the size bound", "the tests read well-formed files", _ID, ["size and stream state checks"],
  "every cut position of small files; general header 1 with any bytes; each count with any value; header blocks, channel sets, trace header and extension with any bytes; files up to a few hundred bytes",
  "all bytes of the whole file arbitrary at once", observe=["ISEGD"])
P("C29", "The SEG-D writer stores the caller's headers field by field and in order",
  "A file written by OSEGDRev2_1 starts with general header 1, general header 2, the general headers N, the channel set headers by scan type, the announced number of (empty) skew blocks, the extended and the external header blocks, each of its exact size. Every field given by the caller is stored at the place and in the encoding of the SEG-D standard (numbers that do not fit general header 1 are marked FF there and stored in general header 2), and extended and external blocks byte for byte.",
  [INP, CONF], "all field values and block counts", "the tests write no header field by field", _OD, ["writers of the header blocks"],
  "every field of each block symbolic (decimal fields: every digit at several values), 0..2 general headers N (3 in thorough), 0..2 scan types x 0..2 sets (3x3 in thorough), 0..2 skew, extended, external blocks, and 10, 99, 100, 300 blocks",
  "values that do not fit their field", observe=["bytes of the written file"])
P("C30", "A SEG-D trace is written with every header word at its place, in order",
  "A written trace is its 20 byte header, the announced number of 32 byte extensions (the standard one, or by the caller's maps) and its samples; every word of the trace's header is stored at its standard place, or at the mapped offset in the mapped type, and bytes without a word are zero. Samples are stored in the file's format with the descale exponent of the trace's own channel set. Traces follow one another in the order written, without gaps.",
  [INP, CONF, HIST], "all header words, maps and trace sequences", "the tests write no trace word by word", _OD, ["write_trace and the extension writers"],
  "1..4 traces of 0..5 samples, all words symbolic (decimal words by case split), maps with each of the 13 types at several offsets, 0..3 maps, channel sets of different descale exponent, scan types up to 99, sets up to 300, groups of 4 samples of format 8015; 256 and 300 traces (700 in thorough), traces of 257..4099 samples (65537 in thorough)",
  "trace numbers over 9999; a word SAMP_NUM that differs from the number of samples", observe=["bytes of the written file"])
P("C31", "SEG-D samples are encoded so that the bytes represent the given values",
  "For each of the 14 SEG-D formats a written trace stores each sample, divided by two to the descale exponent of its channel set, as bytes that represent it: exactly when the format can hold the value, within one unit of the last place otherwise. A value beyond the range of a floating format is stored as the greatest number of its sign.",
  [INP, CONF], "all sample values and formats", "the tests write few values", _OD, ["per-format sample writers"],
  "14 formats, 1..4 samples (6 in thorough); sign and fraction symbolic, exponent by case split over and beyond the format's range",
  "values out of range for integer formats; infinities and NaN in other than IEEE formats", observe=["bytes of the written file"])
P("C32", "Invalid SEG-D writer input is refused, and a refused trace leaves no trace",
  "The writer throws an exception for revision 3, an unknown format, numbers of channel sets, general headers, extended or external blocks that disagree with the general header, blocks that are not 32 bytes, extension maps whose words overlap or leave the 32 bytes, more traces than the channel sets announce, and a trace whose scan type or channel set does not exist, which lacks a mapped word or has a word of a wrong type. A refused trace adds nothing to the file, and writing goes on correctly afterwards; valid input is accepted.",
  [INP, CONF, HIST], "all parameter values and sequences", "the tests use valid parameters", _OD + ["src/Exception.cpp"], ["checks in the constructor and write_trace"],
  "each fault in turn with its value symbolic (map offsets: any 32-bit value; scan type and channel set: any 64-bit value; format: any other code), refused traces (1..2) before, between and after good ones",
  "several faults at once; a word SAMP_NUM that differs from the number of samples", observe=["OSEGDRev2_1", "bytes of the written file"])
P("C33", "A SEG-D file read and written again is the same file",
  "Copying a revision 1 or 2 SEG-D file by passing what the reader returned (general headers, channel sets, extended and external headers, traces with the same extension maps) to the writer gives a file with the same bytes, as long as the original uses the canonical encoding of its values and has no general trailer.",
  [INP, CONF, HIST], "all contents and layouts", "no test copies a file", _ID + _OD, ["reader and writer agree on one layout"],
  "8 formats of all kinds, 1 scan type, 1..2 sets, 0..2 blocks of each kind, up to 3 traces of 0..5 samples; header and sample bytes symbolic (normalised samples, non-negative line and point numbers)",
  "non-canonical encodings; general trailers; revision 3", observe=["ISEGD, OSEGDRev2_1"])
P("C35", "A trace refused by a SEG-Y writer leaves nothing in the file",
  "When a SEG-Y writer refuses a trace (its number of samples disagrees with the file or with its SAMP_NUM, a needed header word is missing or of a wrong type, or the sample interval can not be used), the file holds nothing of it: it is the same file as if the trace had never been given. The traces written before and after are complete and in order, the trailer stanzas follow them, and what the writer takes from the first trace comes from the first accepted one.",
  [INP, CONF, HIST], "all sequences of good and faulty traces, three writers", "the tests write good traces only", _OY, ["checks before anything of a trace is written"],
  "every sequence of 3 (4 in thorough) traces out of good ones and 4..7 kinds of faulty ones; fixed, variable and not given layout; revisions 0..2, 0..1 additional headers, 0..1 stanzas; header words and samples symbolic",
  "values that do not fit the type of a header word (C06)", observe=["bytes of the written file"])
P("C36", "A failing read, write or open is reported, and never ends the program",
  "Opening a file that does not exist or can not be created throws a standard exception, for every reader and writer. When the file stream reports that bytes can not be written or read, the call that needed them throws a standard exception: a trace is accepted only if it was passed on completely, nothing is accepted or returned after a failure, and accepted or returned traces are intact. Destroying a reader or writer after a failure does not end the program.",
  [FAULT, HIST], "every place of a write or read failure", "no test has a failing file", _SY + _OY + ["src/ISEGYSorted1D.cpp"] + _ID + _OD, ["stream exceptions, destructors"],
  "write failure at any byte (symbolic) of a file of 3 traces of over 8 kB, lasting or passing, revisions 0..2 with 0..3 stanzas and SEG-D; read failure at any byte of files of 3 traces, SEG-Y in file order and sorted, SEG-D revisions 1..3 with 0..2 trailer blocks; a missing file or directory for all 7 classes",
  "bytes a stream has buffered (8 kB) when it is destroyed: it does not report them; several independent failures", observe=["ISEGY, ISEGYSorted1D, ISEGD, OSEGYRev0/1/2, OSEGDRev2_1"])
P("C37", "Field descriptions, predefined header maps and exception texts are complete",
  "For every field of the SEG-Y binary header and of every SEG-D header class, name_as_string() returns a text that describes that field, and no two fields of a header share one; every word of the default SEG-Y trace header mapping has an entry in trace_header_description. The predefined maps sercel_408, sercel_428 and sercel_428xl hold, for each of the seven extensions, each word of the instrument's trace header extension at its place and with its type, and no other word. The text of an exception is the file, the line and the message it was made of, and that of its copies is the same.",
  [INP, CONF], "every field of every header, every word of the maps, all messages", "no test looks at a description, at the predefined maps or at the text of an exception",
  ["src/CommonSEGY.cpp", "src/CommonSEGD.cpp", "src/Exception.cpp", "include/CommonSEGY.hpp", "include/CommonSEGD.hpp"], ["name tables", "static maps", "Exception"],
  "the field number symbolic in its range for all 30 header classes; all 95 words of the default mapping; all words of the 3 predefined maps; messages of 0..20 arbitrary bytes with 7 line numbers, both constructors, copies and moves",
  "the wording of a description beyond the words that tell it from the others", observe=["name_as_string, trace_header_description, sercel_*, Exception::what"])
NA = [dict(id="C34", title="The Python bindings expose the same readers and writers",
           statement="The Python module gives the same values and raises for the same inputs as the C++ classes it wraps.",
           over=[INP], qtext="all files and parameters through the binding", tests="no test imports the module", files=["src/pybind/pybind.cpp"], mech=["pybind11 module"], observe=["python module"],
           reason="the binding needs pybind11 and its sources, which are not installed, and is built only with it: there is no IR of it to execute")]
