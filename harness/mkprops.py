#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(zip(("name", "where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Retrieval fidelity: get returns exactly what store acknowledged",
  """Once `store` has exited 0 and printed an ID for some content, `get` of that ID (bare or as full URI) exits 0 and
  outputs exactly the stored bytes, at any later time, whatever else has been stored, indexed or reorganised since.
  Storing any non-empty content succeeds, and this holds for every one: any size, compressible or not, fitting one silo or segmented over many,
  resource or metadata.""",
  ["inputs", "histories", "configurations"],
  "all contents x all histories of archive operations x silo size / id size / index sort size / silo naming configurations",
  """The tests fetch a handful of objects in one or two configurations; the claim is about every content (the container
  splits by compressed size) and every history of stores, housekeepings, reindexings and silo roll-overs.""",
  ["main_store.c", "segjob.c", "wsilo.c", "gzip.c", "main_get.c", "getjob.c", "rsilo.c", "index.c"],
  [("SegJob_Feed/SegJob_Commit", "segjob.c"), ("Wsilo_Store/Wsilo_Commit", "wsilo.c"), ("GetJob_New/GetJob_Iter", "getjob.c"), ("IDX_Iter", "index.c")],
  [("silos", "sequence of gzip'ed WARC records per silo file", "silo.directory"), ("index", "bag of (id prefix, flags, silo, offset, continuation)", "index.sorted + index.appendix (+ index.housekeep)")],
  ["exit code, stdout of store and get"])

p("C02", "Alternate deliveries carry the same object",
  """Every other way to fetch an object delivers the same object: `get -z` a gzip stream that inflates to it, `get -o FILE`
  a file with it, `get -q` the content with no headers, `get -n` its headers and no content, and CGI the content with the stored
  Content-Type, a Content-Length equal to the bytes that follow the header block, and Content-Encoding: gzip only when the client
  accepts gzip and the body then is one gzip member. An unknown ID fails (get: non-zero exit and no content; CGI: an error status, never 200).""",
  ["inputs", "histories", "configurations"],
  "all stored objects (single and segmented, resource and metadata) x all delivery modes x id spellings",
  """Tests use each mode once on one object; header block vs body length and gzip eligibility depend on the object's
  segmentation and stored sizes.""",
  ["main_get.c", "main_cgi.c", "getjob.c", "rsilo.c"],
  [("GetJob_TotalLength, GetJob_IsSegmented", "getjob.c"), ("main_cgi", "main_cgi.c")],
  [], ["stdout/-o file of get and cgi"])

p("C03", "IDs are a function of content",
  """The ID of a resource is the configured number of leading bits of the SHA256 of its content, and the ID of a metadata object
  is the same truncation of the SHA256 of its WARC-Refers-To value, newline, hex SHA256 of its content, newline (unless an ID was forced with -i, which is
  then used verbatim).  It depends on nothing else - not on segmentation, silo, time, input chunking, file versus stdin, or history - and what `store` prints, what the index holds and
  what the records say agree.""",
  ["inputs", "configurations", "histories"],
  "all contents, references, id sizes 64..256, ways to feed the input, silo states",
  "Tests compare a few IDs with golden values in the default id size; chunking and segmentation are not varied.",
  ["ident.c", "segjob.c", "main_store.c", "config.c", "aardwarc.c"],
  [("Ident_Create/Ident_Set/Digest2Ident", "ident.c"), ("SegJob_Commit id computation", "segjob.c")],
  [], ["store stdout, dumpindex, record headers"])

p("C04", "Storing what is already there changes nothing",
  """Storing content that is already in the archive (same bytes for resources; same bytes and reference for metadata) succeeds, prints the
  same ID as the first time and leaves silos and index exactly as they were: an object is stored once, and has one index entry, however often and however it is (re)submitted,
  also after housekeeping, reindexing, and with other options such as a different mime type.""",
  ["inputs", "histories", "configurations"],
  "all histories with repeated stores of single-record and segmented resources and metadata",
  "Tests re-store a few single-record objects right after the first store; segmented objects whose segments collide or recur, and re-stores after index reorganisation are not covered.",
  ["segjob.c", "index.c", "getjob.c", "main_stevedore.c"],
  [("SegJob_Commit dedup lookup", "segjob.c"), ("GetJob_New", "getjob.c")],
  [], ["silo directory digest, dumpindex"])

p("C05", "Silos are append-only; read-only operations change nothing",
  """No operation ever changes or removes a byte of an existing silo: a silo file's previous content is always a prefix of its new content, silo files are never
  removed, renamed or shrunk, and a write-protected silo never changes at all.  Operations that only read (get, cgi, byid, dumpindex, filter, audit, info) change no file of the archive,
  and housekeeping, reindex and rebuild change no silo.""",
  ["histories", "inputs", "configurations"],
  "all operation histories, interleaved with silos being write-protected or held",
  "Tests never compare old silo bytes with new ones; the guarantee concerns every append and every failure path.",
  ["wsilo.c", "silo.c", "main_reindex.c", "main_rebuild.c", "index.c"],
  [("Wsilo_Commit append path", "wsilo.c"), ("wsilo_append write-protect check", "wsilo.c")],
  [("silo bytes", "file content per silo number", "silo.directory")], ["byte comparison of all silos before/after"])

p("C06", "Every silo is a well-formed WARC file with truthful headers",
  """At every quiescent point every silo file is exactly a concatenation of well-formed records with nothing before, between or after: a header block gzip member, the body gzip member, and the record separator,
  the first (and only the first) record being a warcinfo record naming that silo file; the gzip extra-field lengths equal the members' real lengths. Each record's headers are truthful: Content-Length and WARC-Block-Digest match the
  inflated body, the gzip length header matches the body member, type, content type, reference and record ID are as stored, and no WARC-Segment headers appear on unsegmented objects.""",
  ["inputs", "histories", "configurations"],
  "all contents x histories x configurations (silo size, naming pattern, id size)",
  "Tests run audit (which shares the code's own reader and trusts the headers) on few silos; an independent parse of every byte for arbitrary content/segment shapes is not done.",
  ["wsilo.c", "gzip.c", "header.c", "warcinfo.c", "segjob.c"],
  [("Header_Serialize/Gzip_AddAa/Gzip_crnlcrnl", "gzip.c, header.c"), ("Warcinfo_New", "warcinfo.c")],
  [], ["independent parser over all silo files"])

p("C07", "Segmented objects are complete, ordered and digest-chained",
  """An object that does not fit one silo is stored as segments numbered 1..n without gaps, each naming the object as origin (except the first, which is the object), the first
  carrying the payload digest of the whole, the last (and only the last) the total length, and every non-last index entry naming its successor; their bodies in order concatenate to the object and the lengths sum to the total.
  An object is segmented only if it did not fit in one silo of the configured maximum size.""",
  ["inputs", "histories", "configurations"],
  "all content lengths/compressibilities x max_size x silos being held or switched during the store",
  "Tests store two or three segmented objects; segment boundaries depend on compressed size, and record order on which silos are held meanwhile.",
  ["segjob.c", "wsilo.c", "getjob.c", "gzip.c"],
  [("SegJob_Feed segment switch", "segjob.c"), ("SegJob_Commit", "segjob.c"), ("Wsilo_Store fit test", "wsilo.c")],
  [], ["independent parse of silos + dumpindex"])

p("C08", "The index is exact and its lookups agree with it",
  """After every successful operation the index holds exactly one entry for each record in the silos, with the right key, type flags, silo number, offset and successor, and no other entries.
  `dumpindex`, whole or restricted by ID prefix of any length and/or by type, and `byid` (which also exits with the number of matches) return exactly the matching entries, whichever mix of sorted and unsorted index files holds them.""",
  ["histories", "inputs", "configurations"],
  "all histories x all ID prefixes (present, absent, empty, full, shared) x index layouts (sorted only, appendix only, mixed, interrupted housekeeping) x id sizes",
  "Tests look up a few IDs in small indexes; the bucketed binary search misbehaves only for particular key distributions and file layouts.",
  ["index.c", "main_dumpindex.c", "main_byid.c", "segjob.c", "wsilo.c"],
  [("IDX_Insert/IDX_Iter/idx_iter_sorted", "index.c")],
  [("index.sorted", "bucketed sorted entries", "index.c"), ("index.appendix", "unsorted recent entries", "index.c"), ("index.housekeep", "appendix being merged", "index.c")],
  ["dumpindex, byid output vs. independent parse of silos"])

p("C09", "Housekeeping preserves the index contents",
  """`housekeeping` neither loses, adds, duplicates nor alters any index entry (exact duplicates of one may be merged), leaves the entries findable by exact ID and by prefix, and is idempotent, for any distribution and multiplicity of keys, any split between sorted file
  and appendix, any sort memory size, and when resuming after an earlier interrupted run.""",
  ["inputs", "histories", "configurations", "crash_points"],
  "all bags of entries over (sorted, appendix, left-over housekeep file) x sort sizes x interruption points of a previous run",
  "Tests housekeep one index of a few hundred entries; bucket-edge keys, duplicated keys, empty buckets, small sort sizes and leftovers are untested.",
  ["index.c", "main_housekeeping.c"],
  [("IDX_Resort, idx_merge / mergesort", "index.c")],
  [], ["dumpindex before/after, lookups"])

p("C10", "Reindex reconstructs the index from the silos",
  """`reindex` of an archive whose index was lost, truncated or is stale yields an index equal, as a set, to the one that incremental operation produced: every record of every silo
  is found again with the same key, flags, location and successor, so all objects (including segmented ones with segments in any silo order, and identical segments shared by several objects) are retrievable as before; running it again adds nothing.""",
  ["histories", "inputs", "configurations"],
  "all histories producing silos, then index loss, for all segment-to-silo layouts",
  "Tests reindex one archive and compare; out-of-order segments, identical segments, several pending chains are not reached.",
  ["main_reindex.c", "silo.c", "rsilo.c", "index.c"],
  [("reindex segment matcher", "main_reindex.c"), ("Silo_Iter", "silo.c")],
  [], ["dumpindex before loss vs after reindex; get of all objects"])

p("C11", "A crash at any point loses nothing acknowledged and corrupts nothing",
  """If store, reindex, housekeeping or mksilo is killed between any two system calls, then everything acknowledged earlier remains retrievable and every silo is still well-formed; no index entry
  refers to missing or other data, an object whose store was not acknowledged is either completely retrievable or not there at all; and after the stale lock files (*.hold) left behind are removed, storing it again succeeds and a
  reindex yields a complete index.""",
  ["crash_points", "histories"],
  "all histories x all system-call boundaries of the interrupted operation",
  "No test kills anything.",
  ["wsilo.c", "segjob.c", "index.c", "main_stevedore.c"],
  [("hold file then link(2)", "wsilo.c"), ("commit in reverse segment order", "segjob.c"), ("index rename order", "index.c")],
  [("hold", "private file of a silo under construction / lock for appending", "<silo>.hold"), ("index.hold", "housekeeping lock", "index.hold")],
  ["archive state after SIGKILL at each syscall"])

p("C12", "Concurrent operations do not interfere",
  """Any number of concurrent store/stevedore processes, together with housekeeping and readers, behave like some sequential order: all succeed, every acknowledged object is retrievable with its own content from then on, no two writers ever own the same silo (a silo file only appears or grows while its hold file is there), silos stay
  well-formed, no index entry is lost by housekeeping, and a reader never sees a partial record, a missing acknowledged object, or an entry without data.""",
  ["schedules"],
  "all interleavings, at system-call granularity, of two or more processes on one archive",
  "Tests are strictly sequential.",
  ["wsilo.c", "index.c", "segjob.c", "silo.c"],
  [("O_EXCL hold files, link(2)", "wsilo.c"), ("IDX_Insert / IDX_Resort file swap", "index.c")],
  [], ["results and archive state for enumerated interleavings"])

p("C13", "I/O errors are reported, never papered over",
  """If a system call on the input, output or archive files fails (disk full, I/O error, short write, read error), the command does not report success for work not done: exit 0 from store means the whole input is retrievable, from get/cgi that the whole object was delivered,
  from housekeeping/reindex that the index is complete.  Whatever happens, what was acknowledged before stays retrievable and silos stay well-formed.""",
  ["fault_sequences", "histories"],
  "all single failing system calls (and persistent failures from a point on) of every command",
  "No test injects a failure.",
  ["main_store.c", "wsilo.c", "gzip.c", "main_get.c", "main_cgi.c", "index.c", "segjob.c"],
  [("error paths of read/write/writev/close/link/rename", "wsilo.c, index.c, main_*.c")],
  [], ["exit codes, archive state after injected failures"])

p("C14", "audit reports every damaged record and only damaged ones",
  """`audit` of an archive that was only changed by aardwarc commands reports no problem, in any configuration and for any content.  If the bytes of a record are changed, cut off, or its headers disagree with its body (length, digest, gzip length, ID, segment numbering or totals),
  or a segment of an object is missing, `audit` reports a problem, and it does examine every silo named (or, with no names, every silo there is).""",
  ["inputs", "histories", "fault_sequences"],
  "all archives x all byte positions and header fields damaged",
  "Tests damage a few hand-made silos; the claim is for every byte and every header consistent/inconsistent combination.",
  ["main_audit.c", "rsilo.c", "gzip.c", "header.c", "silo.c"],
  [("audit_silo checks", "main_audit.c")],
  [], ["audit stdout/stderr/exit"])

p("C15", "get never passes damaged data off as good",
  """If any byte of the records of an object (header, body, separator) has been changed or cut off, `get` of it either still delivers exactly the stored content or exits non-zero; it never exits 0 with other content (`get -z` and CGI hand out the stored gzip members, whose checksums protect them).
  Objects whose records are intact are not affected by damage elsewhere.""",
  ["inputs", "fault_sequences"],
  "all byte positions/truncations of the silos x objects x delivery modes that verify (plain get, -o, -q)",
  "No test fetches from a damaged silo.",
  ["main_get.c", "getjob.c", "rsilo.c", "gzip.c", "header.c"],
  [("digest and length comparison", "main_get.c"), ("gzip CRC via inflate", "rsilo.c, gzip.c")],
  [], ["get exit code and output on damaged archives"])

p("C16", "filter partitions its input exactly",
  """`filter` outputs exactly those input IDs that are not in the archive (with -r: exactly those that are; with -v: one verdict per input ID), each once per input line, in input order, for any mix of
  bare IDs, full URIs, upper/lower case hex, duplicates, known and unknown; only IDs of objects in the index count as present, and with -s only those that a silo really holds.  Lines that are not IDs are rejected.""",
  ["inputs", "histories", "configurations"],
  "all sequences of input IDs x archive contents x index layouts x options x id sizes",
  "Tests feed one list; the merge of a sorted input with the index depends on equal keys, adjacency, ends of lists.",
  ["main_filter.c", "index.c"],
  [("sorted merge of input with index", "main_filter.c")],
  [], ["filter stdout and exit code"])

p("C17", "stow archives every file of every job",
  """When `stow` exits 0 every non-empty regular file in the job directories (with the content it had when it was sent, and a note in the metadata if that is not what the manifest says), the manifest of each tree, and for each job a metadata object
  about the manifest, are in the archive retrievable with their own content, nothing else was stored and nothing twice, for any number of jobs, files, duplicates, names and sizes and whatever of it
  was archived before; it always terminates; and if the stevedore end fails, disappears or never acknowledges the metadata stow does not report success.""",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all directory trees (number/size/duplication of files) x archive contents x job lists x pipe scheduling x peer failures",
  "Tests run one small directory tree; deadlock needs full pipes, and lost files need particular orderings of replies.",
  ["main_stow.c", "main_stevedore.c", "proto.c"],
  [("stow main loop / job state machine", "main_stow.c"), ("proto framing", "proto.c")],
  [], ["exit code, archive contents after stow"])

p("C18", "stevedore answers its protocol exactly",
  """`stevedore` answers every well-formed request sequence in order and exactly once: a filter session yields precisely the IDs/skips of the objects not yet in the archive, data and metadata sessions store exactly the bytes sent (for any chunking into frames) and return the resulting ID,
  and messages are answered per protocol; sessions of different kinds may follow each other in any order (a data session and a metadata session do not overlap); malformed or cut-off sessions are never acknowledged, the stevedore ends, the archive stays sound (what arrived of an unfinished object may be stored, but only under the ID of exactly that part), and what was acknowledged before is stored.""",
  ["inputs", "histories"],
  "all frame sequences: chunkings, empty frames, interleaved sessions, truncations at any byte",
  "Tests only drive it through stow with one conversation shape.",
  ["main_stevedore.c", "proto.c"],
  [("protocol state machine", "main_stevedore.c"), ("Proto_In/Proto_Out framing", "proto.c")],
  [], ["reply stream, archive state"])

p("C19", "rebuild reproduces each silo's records",
  """`rebuild` of a silo produces a WARC file holding the same records in the same order with the same headers and bodies as the original (apart from the compression and the gzip length header), changes
  neither silo nor index, and does so for every silo the archive can contain.  A record which still has the former WARC-Record-Digest header gets a WARC-Block-Digest and the ID which goes with it.""",
  ["inputs", "histories", "configurations"],
  "all silos producible by stores (sizes, compressibility, segmentation, metadata)",
  "Tests rebuild one or two small silos without comparing content byte for byte.",
  ["main_rebuild.c", "rsilo.c", "gzip.c"],
  [("main_rebuild", "main_rebuild.c")],
  [], ["rebuilt file parsed independently"])

p("C20", "Metadata is bound to an existing object",
  """Metadata can be stored only with a reference to an object that exists in the archive; the record names that object and keeps its own content type, its ID is bound to content and reference (the same text for two objects gives two IDs),
  a forced ID (-i) is used as given, and metadata is retrievable, listed, and indexed as metadata, never as resource.""",
  ["inputs", "histories", "configurations"],
  "all histories of resources/metadata, with bare or full-URI references, forced IDs, segmented bodies, metadata about metadata",
  "Tests store one or two metadata records.",
  ["main_store.c", "main_stevedore.c", "segjob.c", "ident.c"],
  [("-r/-i handling", "main_store.c"), ("metadata id", "segjob.c")],
  [], ["store exit/ID, record headers, dumpindex -t"])

p("C21", "Rejected requests leave no trace",
  """A request that is refused - unknown options, bad mime type, empty input, unreadable file, missing or invalid reference or ID, illegal option combination, unknown object - exits non-zero and leaves silos, index, cache and directory exactly as they were, with no stale hold files;
  later valid requests work as if it had never happened.""",
  ["inputs", "histories"],
  "all kinds of invalid invocations in any archive state",
  "Tests check the exit code of a number of usage errors but not that the archive is unchanged or still usable.",
  ["main_store.c", "main_get.c", "main_byid.c", "main_filter.c", "main.c", "ident.c"],
  [("argument validation before SegJob_New", "main_store.c")],
  [], ["exit code, directory snapshot"])

p("C22", "Silo allocation: bounded size, no overlap, hints harmless",
  """No silo ever exceeds the configured maximum size; a new record goes to the existing silo which is next to be filled if it has room, or to a fresh silo number, never to a held or write-protected one; silo numbers are filled from low to high, and `mksilo` creates exactly the requested empty silos.  The silo cache
  file is only a hint: missing, stale or nonsensical values change neither correctness nor what can be retrieved.  No hold file survives a completed command.""",
  ["histories", "configurations", "inputs"],
  "all histories x max sizes x held/write-protected silos x arbitrary cache contents x content sizes around the silo limit",
  "Tests check a few silo counts; the fit test near the limit and hint values are not explored.",
  ["wsilo.c", "silo.c", "main_mksilo.c"],
  [("Wsilo_New/Wsilo_GetSpace/Wsilo_Commit", "wsilo.c"), ("_.cache", "wsilo.c")],
  [], ["directory listing, silo sizes"])

p("C23", "Configuration is honoured or refused",
  """For every configuration file: comments, blank lines, white space, the order of sections and the case of their names make no difference, and sizes may be written with a unit, a fraction or an exponent.  A file with a syntax error, a repeated section, a missing
  mandatory setting, a setting with more or less than one value or with an impossible one is refused by every command: non-zero exit, nothing changed.  Any other file is honoured by every command: ID prefix and length, directory, size limit and names of silos, the MIME types allowed for resources and for metadata (`*` is all of them), and the body of every silo's warcinfo record.""",
  ["inputs", "configurations"],
  "all texts: every setting and value, every layout of the same settings, every way to damage a file",
  "Tests use a handful of configurations and a few broken ones, and look at the exit code.",
  ["config.c", "aardwarc.c", "vnum.c", "warcinfo.c", "main_store.c", "silo.c"],
  [("Config_Read", "config.c"), ("AardWARC_New", "aardwarc.c"), ("VNUM_2bytes", "vnum.c"), ("Warcinfo_New", "warcinfo.c")],
  [], ["exit codes of all commands", "IDs printed", "names, sizes and warcinfo records of silos"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
