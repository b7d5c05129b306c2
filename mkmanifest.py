#!/usr/bin/env python3
# Source of MANIFEST.json and checks.json (run: python3 mkmanifest.py)
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "stateless explicit exploration of the real code (exhaustive DFS over a bounded choice tree) against a reference model"
COMMON = ["g++ 13 -O1 with AddressSanitizer and bounds checks stands for the release build",
          "files live in a memory file system; the stream library is trusted",
          "completeness holds within the stated bounds only"]
M = {}
def c(id, quick, thorough, oracle, tech=T):
    M[id] = dict(bounds=dict(quick=quick, thorough=thorough), oracle=oracle, technique=tech, assumptions=COMMON)

c("C01", "13 formats x 2 byte orders x 3 writer revisions x fixed/variable x boundary values (all values of the 8-bit formats, all of the 16-bit formats); all length histories of up to 3 traces over a small length alphabet; lengths around 32767/65535; dense IBM exponents/fractions around powers of 16",
  "as quick with every 24-bit value, longer histories and every IBM exponent x fraction boundary", "independent encoder/decoder of each sample format (segy_model.hpp): the exact value, nearest single, IBM within 2^-20")
c("C02", "13 value types x all offsets 0..240-size x boundary values x 2 byte orders x 8 places (revision, header index); all pairs of adjacent typed fields; all set/unset histories over 2-3 traces; every field of the built-in map",
  "as quick with larger value alphabets and longer histories", "byte-level encoder of the trace header at the mapped offset; every byte of the file compared; read back equal, unset = 0")
c("C03", "every binary header field x boundary values x 2 byte orders x 3 revisions, all fields together, all derived-field combinations, reader override, every field read from foreign bytes",
  "as quick with larger alphabets", "independent table of standard offsets; the 400 header bytes and the header the reader returns")
c("C04", "0-4 extended headers x 0-3 trailer stanzas x counted/terminated x revisions x byte orders x modes x trace histories of up to 2 traces; text sizes around 0/3200/6400; blocks that resemble the end mark at every place of a list",
  "as quick with more traces and additional headers", "byte-exact image of the file and the sequence of blocks given")
c("C05", "all writer configurations and all foreign reader layouts (revision x byte order x format x text blocks x gap x additional headers x fixed/variable x trailer), lengths up to 65535; header maps shorter and longer than the trace has headers through every way of reading; counts of text blocks, stanzas, additional headers, samples and traces around 8- and 16-bit limits, written and read",
  "as quick with more formats per layout", "independent SEG-Y encoder: byte-for-byte equality on writing, value equality on reading")
c("C06", "all sequences of has/header/trace to the end of the file plus one, over all layout classes with 0-3 traces; sparse files of more than 2 and 4 GB (hole before the first trace, long and huge traces, many traces) with all sequences around the boundary",
  "0-4 traces, both byte orders", "model cursor over the encoded traces")
c("C07", "all key assignments over a small signed/real domain to up to 4 traces x all operation sequences up to the depth bound; every key type; values next to each other over the whole range of every key type; all arrangements of numbers and not-a-numbers over up to 5 traces; all layout classes; many-trace files; sparse files of more than 2 and 4 GB",
  "up to 5 traces and deeper sequences", "stable sort of the encoded traces, model cursor")
c("C08", "all 256 byte values, all 65536 ordered pairs, both directions, all lengths 0..80 and header-sized texts", "as quick with all lengths to 3300", "bijection plus an independently written code page 037 layout")
c("C09", "all values of up to 5 digits and boundary values of up to 12, digit counts 1-12, first-half skip, 4 previous contents, integer types; all 2-byte patterns decoded; all sequences of up to 3 adjacent fields", "all values of up to 6 digits", "decimal digits of the value laid out nibble by nibble; every byte of the buffer compared")
c("C10", "every truncation point of every layout class; all 256 values of every structural header byte; pairs of structural bytes over a boundary alphabet; all trace-header bytes; short/arbitrary inputs; requests for more than 16 MB refused and reported",
  "as quick with every header byte and larger pair alphabets", "leading complete traces of the intact file or a std::exception; AddressSanitizer, 16 MB allocation limit, time limit", "exhaustive fault enumeration on the real code under AddressSanitizer, explicit exploration against a reference model")
c("C11", "all pairs (and triples at boundaries) of typed fields with all offsets around the edges; names, map sizes and codes; all sequences of up to 4 acceptable/short/long/incomplete traces x writer modes", "longer sequences and all offset triples", "model of the acceptance rule and the byte image of the accepted traces")
c("C12", "each field of general headers 1, 2 and N, of the channel set header (byte by byte and word by word: all 256/65536 contents where the field fits), revision 1 and 2; extended-form switches; shapes (scan types x channel sets x skew x extended x external x additional blocks up to 3 each, and one large); counts in short and extended form; signed source line/point",
  "as quick with larger value alphabets per field and larger shapes", "independent SEG-D encoder (segd_model.hpp): the record model and every header the reader returns must agree field by field; fields of other revisions absent")
c("C13", "each field of general headers 1-3 and of the 20 block types x boundary values; all sequences of up to 3 block types in all orders; block counts through the short and the extended count; blocks differing between records; channel set header fields and shapes",
  "as quick with larger value alphabets and longer block sequences", "independent SEG-D encoder (segd_model.hpp); a block type that the record lacks must be reported absent")
c("C14", "all 8- and 16-bit patterns of every narrow format, all 8015 word x exponent x position combinations, all 24-bit patterns of 8036/9036-like formats, boundary patterns of 32/64-bit; all descale values; sample counts 0-8 and larger; formats alternating between records and between two readers; all unsupported codes",
  "as quick with dense 32/64-bit patterns and longer histories", "independent decoder of every format (segd_model.hpp) computing the exact value")
c("C15", "each field of the 20-byte header and of extension 1 x boundary values x revision; 13 value types x every legal offset x block index x value; number of blocks 0-4 x map sizes 0-3; all overlapping or overlong pairs of fields; Sercel and default maps",
  "as quick with all pairs of offsets and larger value alphabets", "independent encoder of the trace header blocks; values and sample start compared; map acceptance rule")
c("C16", "all sequences of has_record/has_trace/read/header queries to the end plus one over 1-3 records x shapes (scan types, channel sets, channels 0-3, skew, trailer, extended/external blocks); records of different shapes in one file; many-trace files; sparse files of more than 2 and 4 GB, the boundary in every block",
  "longer records and more shapes per file", "model cursor over the encoded traces and records")
c("C17", "read-write-compare of canonical records: each header field x boundary values, trace headers, extension maps (13 types x offsets), all 8/16-bit sample patterns and boundary patterns of the others; write-read of every header type built by hand; nearest-value rounding; all write sequences around the declared number of traces; all contradictions between counts and blocks; unsupported formats",
  "as quick with larger alphabets and longer sequences", "byte image from the independent encoder, values from the independent decoder, model of the acceptance rule")
c("C18", "every truncation point x 10 layout classes x 3 ways of reading; all 256 values of every byte that is not a sample; pairs of structural bytes over a boundary alphabet; cut and corruption combined; inputs that are not SEG-D; requests for more than 16 MB refused and reported",
  "larger alphabets for pairs and all layouts", "leading traces of the intact file or a std::exception; AddressSanitizer, allocation limit, time limit", "exhaustive fault enumeration on the real code under AddressSanitizer, explicit exploration against a reference model")
c("C19", "all operation sequences to depth 4 over 3 trace and 3 header variables, 2 names, values; map operations to a greater depth; containers", "depth 5", "map/vector value model; all variables compared after every operation")
c("C20", "all interleavings of the scripts of every pair of actors (SEG-Y sorted/sequential readers and writers, SEG-D readers and writer; formats; same or different file); triples with up to 2 preemptions; two threads with an object each: every operation of one preempted at every basic block of the library (each at its first three passages and every power of two) by the whole script of the other", "triples with up to 5 preemptions", "each actor's own result when alone (reference model of the file)", "exhaustive interleaving exploration of the real objects under a controlled scheduler")
c("C21", "all sequences of copies, moves, throws, rethrows and destructions to depth 3 over up to 3 live errors, texts handed out earlier looked at again after every step; errors of every refusing entry point", "depth 4", "the text given, compared on every live error after every operation")
c("C22", "every constant of the 31 header classes followed by every other constant of every class; every name of the default trace header map", "the same (already complete)", "table of the field each constant stands for; a text must be nearer to its own field than to any other of the header")
c("C23", "every writer configuration (SEG-Y revision x header given/derived x 0-2 extended headers x 0-2 stanzas x additional headers x 4 length histories; SEG-D format x channels x samples x header blocks) x device full at every byte around block and buffer boundaries and every 61st byte between; every single write, read and positioning call of every history failing once or for good (3 errors, 3 partial acceptances); every reader kind x layout x 4 ways of reading; short and interrupted calls of 11 sizes; names that cannot be opened",
  "as quick with the device full at every byte and all byte orders", "system calls of the stream library pass through a scripted device (device.hpp): a call during which the device refused must throw, no other call may, what is stored is a prefix of the model's file, traces delivered are those of the model, slow devices change nothing",
  "fault-injecting stateless exploration of the real code: every fault point of every history within the bounds")
c("C24", "every ordered pair of attributes of the 30 header classes (325 fields) x up to 5 boundary values, all attributes and members compared after every access; 13 text fields x every length to 3 beyond the field x 3 earlier contents; 17 constants, 13 value types, 330 descriptions, 256 x 3 x 4 EBCDIC texts; 33 getters on records of every revision with all, each one and no optional block; all histories of 5-6 steps of iteration, reads and queries (SEG-Y, sorted SEG-Y to 3, SEG-D of 1-2 records); all splits of positional, named and omitted constructor arguments of every reader and writer; all histories of 3 operations on a trace",
  "histories of 7-8 steps (sorted 4)", "member addresses and the C++ interface itself; written files compared byte for byte with those of the C++ writers",
  "stateless explicit exploration of the module's own binding code, compiled against a recording stand-in for pybind11 that calls it as Python would")
DONE = [k for k in sorted(M) if os.path.exists(os.path.join(HERE, "harness", k.lower() + ".cpp")) and M[k]["oracle"]]
json.dump({k: M[k] for k in sorted(M)}, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
man = dict(version=1, setup_cmd="true", checks=[dict(property=k, quick_cmd="python3 check.py %s quick" % k,
    thorough_cmd="python3 check.py %s thorough" % k, evidence_file="evidence/%s.json" % k, technique=M[k]["technique"], level="model_checking",
    level_note="Every execution within the bounds is run on the library built from /repo and compared with an independent reference model; no sampling. Bounds: %s. Trusted: the reference model, g++/ASan, the stream library." % M[k]["bounds"]["quick"]) for k in DONE],
    not_applicable=[dict(property=k, reason="the check for this property is still being built") for k in sorted(M) if k not in DONE])
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
