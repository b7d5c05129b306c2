#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","SEG-Y samples survive write then read, in every format and byte order",
 "A trace written with any SEG-Y writer revision and read back yields exactly the samples that were written, for every supported sample format code, both byte orders, fixed and variable trace length, any number of traces and any lengths, whenever the values are representable in the format. IEEE single samples come back rounded to the nearest single, and IBM float samples come back with a relative error below 2^-20 (exactly, when the value fits in an IBM fraction). Zero, the extreme values of every format and values next to powers of 16 are included.",
 ["inputs","configurations","histories"],"all formats x byte orders x revisions x fixed/variable x trace-length histories x boundary sample values; for 8/16-bit formats every value, for 24-bit every value in the thorough tier",
 "Tests read five sample files and rewrite them with the revision 0 writer: big-endian, fixed length, a handful of values, 5 of 13 formats, no variable-length file and no little-endian file.",
 ["src/OSEGY.cpp","src/ISEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp","include/util.hpp"],
 [("sample writers/readers by format code","src/OSEGY.cpp assign_sample_writer, src/ISEGY.cpp assign_sample_reader"),("IBM float codec","src/OSEGY.cpp write_ibm_float, src/ISEGY.cpp dbl_from_ibm_float"),("fixed/variable sample blocks","write_trace_samples_fix/var, read_trc_smpls_fix/var")],
 [("sample buffer","reused between traces, resized for variable length","CommonSEGY::samp_buf")],["ISEGY::read_trace","OSEGY::write_trace"])

p("C02","SEG-Y trace header fields survive write then read, for any header map",
 "Every trace header field of a trace map (any value type, any offset inside the 240 bytes, in the main and in every additional trace header) that is set to a value representable in its type reads back with the same value, and a field that was not set reads back as zero. The field is stored at its mapped offset and changes no byte that belongs to another field, another trace or the samples. The built-in default map round-trips all its standard fields the same way.",
 ["inputs","configurations","histories"],"13 value types x every legal offset x boundary values x byte orders x number of additional headers x neighbouring fields x consecutive traces with different fields set",
 "The only header test copies integer fields of the default map from sample files; float-typed fields, 24/64-bit types, custom offsets and additional headers are never written.",
 ["src/OSEGY.cpp","src/ISEGY.cpp","src/CommonSEGY.cpp"],
 [("header field writer switch","src/OSEGY.cpp write_trace_header, write_additional_trace_headers"),("header field reader switch","src/ISEGY.cpp read_trc_header"),("default map","src/CommonSEGY.cpp default_trace_header")],
 [("header buffer","240 bytes reused for each trace header","CommonSEGY::hdr_buf")],["ISEGY::read_header","ISEGY::read_trace","OSEGY::write_trace"])

p("C03","SEG-Y binary header is written and read faithfully",
 "Every field of the binary file header given to a writer is stored at its standard byte position in the chosen byte order and reads back unchanged, apart from the fields the writer itself derives (default format code, revision number, counts of extended text headers and trailer stanzas, first-trace offset, and samples-per-trace and sample interval taken from the first trace when no header was given). A header given to the reader explicitly replaces all values from the file except the byte order. The byte-order mark is honoured when written and when read.",
 ["inputs","configurations"],"every header field x its boundary values (one field at a time and all fields together) x byte order x writer revision; reader override x file contents",
 "Tests compare the header of existing files only; no test builds a header field by field, uses the little-endian mark, revision 2 fields or the reader override.",
 ["src/OSEGY.cpp","src/ISEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],
 [("binary header writer","src/OSEGY.cpp write_bin_header"),("binary header reader","src/ISEGY.cpp fill_bin_header"),("defaults from first trace","src/OSEGYRev*.cpp")],
 None,["ISEGY::binary_header","ISEGY::read_binary_header","bytes 3200-3599 of the file"])

p("C04","SEG-Y text headers, extended text headers and trailer stanzas are kept",
 "The text header, every extended text header and every trailer stanza given to a writer appear in the file once, in order, byte for byte, and the reader returns exactly the same sequence, whether their number is counted in the file or ended by an end stanza, and whatever traces lie between them. Text of any size other than 3200 bytes is refused. With no text given, a full 3200-byte standard header is written, in EBCDIC for revision 0 and in ASCII otherwise.",
 ["inputs","configurations","histories"],"0-4 extended headers x 0-3 trailer stanzas x counted/terminated x writer revision x trace histories x fixed/variable x additional headers; text sizes around 3200",
 "Tests print the first text header only; no file with extended headers or trailer stanzas exists in the test data.",
 ["src/OSEGY.cpp","src/ISEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],
 [("extended text header io","src/OSEGY.cpp write_ext_text_headers, src/ISEGY.cpp read_ext_text_headers"),("trailer stanza io","src/OSEGYRev2.cpp destructor, src/ISEGY.cpp read_trailer_stanzas")],
 [("end of data","position where traces stop and trailer starts","ISEGY::Impl::end_of_data")],["ISEGY::text_headers","ISEGY::trailer_stanzas"])

p("C05","SEG-Y files have the standard byte layout, on writing and on reading",
 "The bytes a writer produces equal those of an independent encoder of the SEG-Y standard: headers, trace headers and big- or little-endian samples at the standard offsets with nothing between, before or after. Conversely any file produced by that encoder, including first-trace offset gaps, counted or end-stanza-terminated text blocks, additional trace headers and trace lengths up to 65535 samples, is read as exactly what was encoded.",
 ["inputs","configurations"],"all writer configurations within the bounds; all reader file layouts (revision x byte order x format x text blocks x gaps x additional headers x fixed/variable x trailer) within the bounds",
 "A write-read test cannot see an error made on both sides, and only five third-party files exist in the tests.",
 ["src/OSEGY.cpp","src/ISEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp","src/CommonSEGY.cpp"],
 [("writers","src/OSEGY.cpp"),("reader","src/ISEGY.cpp initialization, read_trc_header, read_trc_smpls_*")],None,["file bytes","ISEGY"])

p("C06","SEG-Y sequential reading delivers each trace once, in order",
 "For every interleaving of asking whether a trace remains, reading a header only and reading a whole trace, the n-th read of either kind delivers the n-th trace of the file; asking never moves the position; and the reader reports a remaining trace exactly until the last one has been consumed, after which a further read is refused with an exception. Reading a header returns the same header as reading the trace. Extra text blocks, gaps, additional headers, variable lengths and the size of the file (beyond 2 or 4 GB) do not change this.",
 ["histories","inputs"],"all operation sequences of length <= number of traces + 2 over {has, header, trace} on files with 0-4 traces of every layout class",
 "Tests use one fixed loop (has, read) per file.",
 ["src/ISEGY.cpp"],
 [("position tracking","src/ISEGY.cpp curr_pos, fill_buf_from_file, file_skip_bytes, has_trace")],
 [("current position","file position after the last operation","ISEGY::Impl::curr_pos")],["ISEGY::has_trace","ISEGY::read_header","ISEGY::read_trace"])

p("C07","Sorted SEG-Y reading visits traces in key order without losing any",
 "A reader sorted by a header delivers every trace exactly once in non-decreasing order of that header's value, traces with equal values in file order, through any interleaving of header reads, trace reads and remaining-trace queries, however close the values are; values that are not a number have no place in the order but disturb neither the others nor the count. Listing the keys gives each distinct value once in order; fetching headers or traces for a value gives the first at-most-N matching traces in file order (none for an absent value) and does not disturb the sequential position. A header missing from the traces is refused, and a file with no traces is simply empty. The size of the file (beyond 2 or 4 GB) changes nothing.",
 ["histories","inputs"],"all key assignments over a small signed/real key domain to up to 5 traces x all interleavings of has/header/trace/keys/get-headers/get-traces to a bounded depth, fixed and variable length",
 "No test uses the sorted reader at all.",
 ["src/ISEGYSorted1D.cpp","include/ISEGYSorted1D.hpp"],
 [("key index and cursor","src/ISEGYSorted1D.cpp trc_map, map_cur, vec_cur")],
 [("cursor","position in the key index","ISEGYSorted1D::Impl")],["ISEGYSorted1D"])

p("C08","EBCDIC and ASCII conversion are inverse of each other on every byte",
 "Converting any text from EBCDIC to ASCII and back, or from ASCII to EBCDIC and back, restores every byte of it, for all 256 byte values, any length and any position, and never changes the length. Letters, digits, space and the punctuation used in SEG-Y headers map to their code-page 037 positions.",
 ["inputs"],"all 256 byte values in both directions, all ordered pairs of bytes, all short lengths and header-sized texts",
 "The test converts one default header to EBCDIC and back.",
 ["src/CommonSEGY.cpp"],[("translation tables","src/CommonSEGY.cpp e2a, a2e, ebcdic_to_ascii, ascii_to_ebcdic")],None,["CommonSEGY::ebcdic_to_ascii","CommonSEGY::ascii_to_ebcdic"])

p("C09","BCD encoding and decoding agree for every value, width and alignment",
 "Encoding a number of up to 12 decimal digits as BCD and decoding it gives the number back for every digit count, with or without skipping the first half byte, and the encoding contains its decimal digits most significant first. Encoding with the first half byte skipped keeps that half byte and expects the other half to be clear; no byte outside the field is touched, and both advance the position past every complete byte. Decoding accumulates each half byte times its power of ten.",
 ["inputs"],"all values of up to 5 digits (6 in the thorough tier) and boundary values up to 12 digits x digit count x first-half skip x preceding contents x integer types used",
 "The test checks one number.",
 ["include/util.hpp"],[("double dabble encoder","include/util.hpp to_bcd"),("decoder","include/util.hpp from_bcd")],None,["sedaman::to_bcd","sedaman::from_bcd"])

p("C10","Truncated or corrupt SEG-Y input is reported, never misread",
 "Cutting a SEG-Y file after any byte never makes the reader crash, hang, touch memory outside its buffers or invent data: opening or reading either throws an exception derived from the standard one or delivers traces that are exactly the leading complete traces of the original. An arbitrary value in any single byte of the file headers likewise leads to an exception or to bounded, memory-safe reading. The reader asks for memory only in proportion to the file, whatever sizes it declares.",
 ["inputs","fault_sequences"],"every truncation point of files of every layout class; every value of header bytes that hold sizes, counts, formats, byte order, revision",
 "Tests read intact files and one missing file.",
 ["src/ISEGY.cpp","src/ISEGYSorted1D.cpp","src/CommonSEGY.cpp"],
 [("stream exceptions","src/CommonSEGY.cpp constructor"),("format and byte order checks","src/ISEGY.cpp assign_raw_readers, assign_sample_reader")],None,["ISEGY","ISEGYSorted1D"])

p("C11","SEG-Y misuse is refused and a refused trace leaves no bytes behind",
 "Header maps whose fields overlap, extend beyond 240 bytes, have a name that is not 8 characters or do not match the number of additional headers declared by a revision 2 binary header are refused on construction, all others accepted; unsupported formats and byte-order marks are refused. A trace that has more samples than the file or its header declares, or lacks a header the writer needs, is refused with an exception and the file afterwards contains exactly the accepted traces; a shorter trace is padded with zeros.",
 ["inputs","histories","configurations"],"all pairs of typed fields at boundary offsets; all sequences of acceptable, short, long and incomplete traces up to a bound x writer modes",
 "No negative test exists for writers.",
 ["src/CommonSEGY.cpp","src/OSEGY.cpp","src/OSEGYRev0.cpp","src/OSEGYRev1.cpp","src/OSEGYRev2.cpp"],
 [("map check","src/CommonSEGY.cpp check_tr_hdr_map"),("sample count check","src/OSEGY.cpp write_trace_samples_fix/var")],None,["OSEGYRev0","OSEGYRev1","OSEGYRev2","ISEGY constructors"])

p("C12","SEG-D general and channel-set headers are decoded field by field",
 "For every SEG-D revision 1 and 2 record the reader returns each field of the first and second general header, of every further general header block, of every channel set header and the raw extended and external header blocks with the value encoded at its standard position, including fields that move to their extended form when all half-bytes are set. Fields the revision does not have are reported as absent.",
 ["inputs","configurations"],"each field x boundary values (one at a time and together) x numbers of scan types, channel sets, skew, extended, external and additional blocks",
 "SEG-D tests need files that are not in the repository; none runs.",
 ["src/ISEGD.cpp","src/CommonSEGD.cpp","include/CommonSEGD.hpp"],
 [("general header decoding","src/ISEGD.cpp read_gen_hdr1, read_gen_hdr2_rev2, read_rev2_add_gen_hdr_blks"),("channel set decoding","src/ISEGD.cpp read_ch_set_hdr")],None,["ISEGD::general_header*","ISEGD::channel_set_headers","ISEGD::extended_headers","ISEGD::external_headers"])

p("C13","SEG-D revision 3 headers are decoded field by field",
 "For a revision 3 record the reader returns every field of the general headers 1 to 3, of each optional general header block type (vessel, area, client, job, line, source, sensor, position, orientation, measurement and the others), and of the 96-byte channel set headers with the value encoded at its standard position. A block type absent from the record is reported as absent, whatever blocks other records had, and blocks may come in any order.",
 ["inputs","configurations"],"each field of each block type x boundary values; all subsets of up to 3 block types in all orders; number of blocks through the extended count",
 "No revision 3 file is in the repository and no test constructs one.",
 ["src/ISEGD.cpp","src/CommonSEGD.cpp","include/CommonSEGD.hpp"],
 [("revision 3 block decoding","src/ISEGD.cpp read_gen_hdr2_and_3, read_rev3_add_gen_hdr_blks"),("block getters","src/ISEGD.cpp general_header_*")],None,["ISEGD::general_header3","ISEGD::general_header_*"])

p("C14","SEG-D samples decode to the value the format defines",
 "For each supported SEG-D format code the samples returned are the values the format defines for the stored bits, scaled by two to the power of the channel set's descale exponent, for every bit pattern of the 8- and 16-bit formats and boundary patterns of the wider ones, any sample count and any position in the trace. Samples of format 8015 occupy whole groups of four, and a trace of revision 1 or 2 that has no extension holding a sample count has as many samples as its channel set declares. The result for a trace does not depend on traces read before it or by another reader. Unsupported format codes are refused with an exception.",
 ["inputs","histories"],"format codes x all 8/16-bit patterns, boundary patterns of 20/24/32/64-bit x sample counts x descale values x preceding traces",
 "No SEG-D sample is decoded by any test that runs.",
 ["src/ISEGD.cpp"],[("sample decoders","src/ISEGD.cpp assign_sample_reading, read_trace_samples")],None,["ISEGD::read_trace"])

p("C15","SEG-D trace headers and header extensions are decoded field by field",
 "Each field of the 20-byte trace header and of the trace header extensions is returned with the value encoded at its standard position, extended file, channel set, trace and line/point numbers replacing the short ones when present. With a user-supplied extension map every mapped field of every value type and offset is returned for the extension block it belongs to; extension blocks beyond the map are skipped and the samples still start at the right byte. Maps whose fields overlap or leave their 32-byte block are refused.",
 ["inputs","configurations"],"each field x boundary values x revision; 13 value types x every legal offset x block index; number of extensions 0-4 against map sizes 0-3",
 "No running test reads a SEG-D trace header.",
 ["src/ISEGD.cpp"],[("trace header decoding","src/ISEGD.cpp read_trace_header, read_trace_header_ext")],None,["ISEGD::read_trace"])

p("C16","SEG-D reading visits every trace of every record in order",
 "Reading a file of several records delivers every trace of every record exactly once and in file order through any interleaving of queries and reads, with skew blocks, extended and external headers and general trailers skipped wherever declared. A remaining record is reported exactly until the last trace of the last record has been read, header queries always describe the record the next trace belongs to, records without channels are passed over, and reading beyond the last trace is refused with an exception, in files of any size.",
 ["histories","configurations"],"1-3 records x scan types x channel sets x channels x skew x trailer x extended blocks x all query/read interleavings to a bound",
 "No multi-record SEG-D file is tested.",
 ["src/ISEGD.cpp"],[("record loop","src/ISEGD.cpp read_trace, read_headers_before_traces, read_trailer, has_record, has_trace")],
 [("channel counters","traces in the record and traces read","ISEGD::Impl::chans_in_record, chans_read")],["ISEGD"])

p("C17","SEG-D 2.1 writing and reading are inverse",
 "A record written by the revision 2.1 writer reads back with the same general headers, channel sets, extended and external blocks, trace headers, extensions and samples; samples are exact when representable in the sample format and otherwise, within its range, the nearest value of the format. A revision 2.1 record in canonical form (no redundant or reserved bytes set, no trailer, normalised samples) that is read and written again is reproduced byte for byte. More traces than the channel sets declare, a trace of an unknown channel set, a trace whose declared number of samples differs from the samples it has, header blocks that contradict the declared counts or have a wrong size, overlapping or overlong extension maps and unsupported formats are refused with an exception; a refused trace leaves no bytes in the file.",
 ["inputs","configurations","histories"],"each header field x boundary values; format codes x sample values; channel set shapes; extension maps; write sequences around the declared trace count",
 "The write test needs a file that is not in the repository and covers one vendor layout.",
 ["src/OSEGD.cpp","src/OSEGDRev2_1.cpp","src/CommonSEGD.cpp","src/ISEGD.cpp"],
 [("record writer","src/OSEGDRev2_1.cpp"),("field and sample writers","src/OSEGD.cpp")],
 [("channel counters","traces declared and written","OSEGD::Impl::chans_in_record")],["OSEGDRev2_1::write_trace","ISEGD"])

p("C18","Truncated or corrupt SEG-D input is reported, never misread",
 "Cutting a SEG-D file after any byte, or changing any single header byte to any value, never makes the reader crash, hang or touch memory outside its buffers: it throws an exception derived from the standard one or keeps reading safely, and it asks for memory only in proportion to the file. For a truncated file the traces delivered before the exception are exactly the leading traces of the original.",
 ["inputs","fault_sequences"],"every truncation point of every layout class; every value of every byte of the general, channel set and trace headers",
 "No negative SEG-D test exists.",
 ["src/ISEGD.cpp"],[("index checks and stream exceptions","src/ISEGD.cpp read_trace_samples, src/CommonSEGD.cpp constructor")],None,["ISEGD"])

p("C19","Traces and headers behave as independent values",
 "A trace header behaves as a map from names to integer or real values: get returns the last value set for the name or nothing, keys lists each name once. Copies are independent of their source, moves and assignments carry the full contents, self-assignment changes nothing, and no sequence of copies, moves, assignments and edits makes two objects share state or lose data.",
 ["histories"],"all operation sequences up to a bounded depth over 3 trace and 3 header variables, 2 names, 3 values, against a reference model",
 "No test copies, assigns or edits a trace.",
 ["src/Trace.cpp","include/Trace.hpp"],[("value semantics","src/Trace.cpp")],None,["Trace","Trace::Header"])

p("C20","Readers and writers are independent of one another",
 "Any number of readers and writers may be open at once, on the same or different files: for every interleaving of their operations each delivers and writes exactly what it would if it were alone, and so it is when different objects are used by different threads at the same time, wherever a thread is preempted. Several readers of one file keep separate positions.",
 ["histories","schedules"],"all interleavings of the operation scripts of two (three in the thorough tier) live objects of every kind and format combination; every place within an operation at which one thread can be preempted by another thread with an object of its own",
 "Tests open one object at a time (one reader plus one writer in lock-step).",
 ["src/ISEGY.cpp","src/OSEGY.cpp","src/ISEGD.cpp","src/OSEGD.cpp","src/ISEGYSorted1D.cpp"],
 [("per-object state","pimpl members; no shared mutable statics in codecs")],None,["all readers and writers"])

p("C21","Library errors carry their message and can be copied",
 "Every error the library raises can be caught as a standard exception, copied and moved any number of times in any order, and each live copy reports the same message containing the reason given; copying leaves the source usable.",
 ["histories","inputs"],"all copy/move/assign-free operation sequences to a bounded depth; errors raised by every refusing entry point",
 "Tests only print the message of one error.",
 ["src/Exception.cpp","include/Exception.hpp"],[("copy and move","src/Exception.cpp")],None,["Exception::what"])
p("C22","Every header field has its own description",
 "Each constant that names a field of a SEG-Y or SEG-D file header yields the non-empty description of exactly that field, different from those of the other fields of its header, and asking never disturbs texts obtained before. Every trace header of the default SEG-Y map has an entry in the table of trace header descriptions that describes that header and no other.",
 ["inputs","histories"],"every constant of every header class x every other constant asked afterwards; every name of the default map",
 "No test asks for a description except for printing the binary header.",
 ["src/CommonSEGD.cpp","src/CommonSEGY.cpp","include/CommonSEGD.hpp","include/CommonSEGY.hpp"],
 [("name tables","src/CommonSEGD.cpp *_names, src/CommonSEGY.cpp bin_names"),("description table","src/CommonSEGY.cpp trace_header_description")],None,["name_as_string","CommonSEGY::trace_header_description"])
p("C23","Device errors are reported and do no further harm",
 "When the device refuses data in the middle of any history (full disk, I/O error, at whatever byte or call), the library call during which that happens fails with a standard exception and no later write on that object succeeds; no call fails unless the device did. What is stored by then is the beginning of the intended file, destroying the object is always safe, and a reader hit by an error delivers no wrong trace and never takes the error for the end of the file. Calls that are merely short or interrupted change nothing. Files that cannot be opened are reported.",
 ["fault_sequences","histories"],"every byte at which the device is full and every single write, read and positioning call that fails, over histories of every writer and reader kind",
 "Tests run on a healthy file system.",
 ["src/CommonSEGY.cpp","src/CommonSEGD.cpp","src/OSEGY.cpp","src/OSEGYRev2.cpp","src/OSEGD.cpp","src/ISEGY.cpp","src/ISEGD.cpp"],
 [("stream exceptions","src/CommonSEGY.cpp and src/CommonSEGD.cpp constructors"),("trailer written on destruction","src/OSEGYRev2.cpp ~OSEGYRev2")],None,["all readers and writers"])
p("C24","The Python module reaches exactly what its names say",
 "In the Python module every header class offers each field of the C++ class under its own name; setting or reading an attribute touches exactly that field, in any order of accesses, and texts of any length stay within their field. Every method, constant, enumeration value and constructor stands for the C++ one of its name, with arguments given by position, by name or left out meaning the same. Iterating over a reader gives each trace once and in order, mixed with any other reads and queries, and then stops. Texts, samples and headers arrive unchanged.",
 ["histories","inputs"],"every ordered pair of attributes of every header class x boundary values; every text length; every method and constructor with every split of positional, named and omitted arguments; all histories of reads, queries and iteration steps to a bounded depth",
 "The module is not built by the tests at all.",
 ["src/pybind/pybind.cpp"],[("attributes and methods","src/pybind/pybind.cpp"),("iteration","src/pybind/pybind.cpp __next__")],None,["pysedaman"])
import sys
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    print(json.dumps(d))
