#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SCAN = ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/v1/mod.rs"]

p("C01", "A scan lists exactly what is in the directory tree",
  "Scanning a directory at prefix `/` yields a signature whose entries are exactly the directories, regular files and symlinks of that tree, each once, under its exact byte path, with the file's size, its owner-executable flag and the symlink's verbatim target. Nothing is invented, dropped or merged, and sockets, FIFOs and other special files are left out without failing the scan. This holds also when the file system does not report entry types while listing.",
  ["inputs", "configurations"],
  "every directory tree (any names the OS allows, any nesting including paths longer than PATH_MAX, any mode bits, hidden, empty, dangling, special files), every hash type and thread count",
  "tests/simple_dir.rs scans two tiny committed trees with ASCII names, no symlinks, no executables, no empty directories, no special files.",
  SCAN, [("directory walk and entry classification", "src/v1/scan.rs scan()"), ("entry lines", "src/v1/writer.rs SyncWriter, src/v1/threaded_writer.rs ThreadedWriter::poll_item")],
  observe=["bytes produced by v1::scan, decoded by an independent strict reader"])

p("C02", "Scan output is canonical v1 text: grammar, escaping and order",
  "The output of a scan is ASCII text of the documented v1 grammar: a header line naming the requested hash type and block size, directory lines, two-space entry lines with single-space separated fields, and a footer line, all ending in a newline, with every byte <= 0x20, >= 0x7f or equal to backslash in names and symlink targets written as a lowercase \\xNN escape and every other byte verbatim. The root comes first, every directory follows its parent and precedes its next sibling's subtree in component-wise byte order, and the entries of a directory are strictly sorted by name bytes. On trees with plain names the output is the one the reference script hash.sh prints.",
  ["inputs", "configurations"],
  "every tree, in particular names made of separators, control bytes, backslashes, non-UTF-8 bytes, literal \\xNN text and names whose order differs from the order of their escaped form; every hash type and thread count",
  "One unit test escapes two strings; no tree in the tests has a name that needs escaping or whose sort order is delicate (such as `a`, `a.b`, `a/b`).",
  SCAN + ["FORMAT.v1.rst", "hash.sh"], [("Name escaping", "src/v1/writer.rs impl Display for Name"), ("sorting and traversal", "src/v1/scan.rs scan()"), ("header", "src/v1/writer.rs SyncWriter::new, src/v1/threaded_writer.rs ThreadedWriter::new")],
  observe=["raw bytes produced by v1::scan"])

p("C03", "The footer is the digest of the signature's own text",
  "The last line of every signature a scan produces is the lowercase hex digest, under the hash type named in its header, of all the lines that precede it, byte for byte. It is the same whether or not progress output is enabled, whatever the number of threads, and however the output sink splits the writes.",
  ["inputs", "configurations"],
  "every tree x hash type x thread count x progress on/off x sink write granularity",
  "The tests pin the footer of two fixed trees without progress output; the default CLI mode (progress on) is never run.",
  ["src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/v1/progress.rs", "src/v1/hash.rs", "FORMAT.v1.rst"],
  [("digest of everything written", "src/v1/writer.rs HashWriter::write"), ("footer emission", "src/v1/writer.rs done(), src/v1/threaded_writer.rs done(), src/v1/progress.rs done()")],
  state=[("running digest", "digest of the body lines written so far", "src/v1/writer.rs HashWriter.digest")],
  observe=["last line of the scan output against an independent digest of the preceding bytes"])

p("C04", "Each block hash is the digest of exactly that block of that file",
  "A file of n bytes gets exactly ceil(n / block_size) hashes, and the i-th is the digest of the bytes [i*block_size, min((i+1)*block_size, n)) of that file alone under the signature's hash type, lowercase hex, in order. In particular it does not depend on other blocks, on other files, or on how the operating system splits reads.",
  ["inputs", "configurations"],
  "every file size (block boundaries included) and content, every sequence of files in one scan, every hash type, thread count and sequence of short or interrupted reads",
  "The tests hash one multi-block file whose blocks have a single size pattern, and pin the outputs rather than compare them with digests of the blocks.",
  ["src/v1/hash.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs"],
  [("block loop", "src/v1/writer.rs add_file, src/v1/threaded_writer.rs add_file"), ("hash_file / total_hash", "src/v1/hash.rs")],
  state=[("hasher reused between blocks", "must be clean at every block start", "src/v1/writer.rs SyncWriter.hash")],
  observe=["hash fields of file lines against independent digests of the file's blocks"])

p("C05", "Signatures are reproducible: only the tree's content matters",
  "Two directories with the same relative paths, contents, owner-executable bits and symlink targets have byte-identical signatures. Creation and listing order, timestamps, inode numbers, hard links, ownership, all other permission bits, the directory's location and the spelling of the path given to the scanner have no influence, nor has scanning it again.",
  ["inputs", "configurations", "histories"],
  "every tree, every pair of ways of materialising it, every listing order of the file system, every spelling of the root path (relative, trailing slash, through a symlink, dotted)",
  "Each tree is scanned once from one path as checked out by git.",
  SCAN, [("sorting of listed entries", "src/v1/scan.rs scan()"), ("EXE_MASK", "src/v1/writer.rs")],
  observe=["bytes produced by v1::scan for two materialisations"])

p("C06", "Threads never change the result, under any schedule",
  "For every tree and configuration, a scan with any number of hashing threads, any queue size and any interleaving of workers produces byte for byte the output of the single-threaded scan, and always terminates.",
  ["schedules", "inputs", "configurations"],
  "every completion order of hashing jobs, including slow first files, a full queue, more entries than the queue holds, symlinks and directories queued behind unfinished files; every thread count and queue size",
  "The threaded tests run with 4 threads on trees of at most eight entries, so the queue never fills and jobs complete almost in order.",
  ["src/v1/threaded_writer.rs", "src/v1/mod.rs", "src/config.rs"],
  [("in-order queue of operations", "src/v1/threaded_writer.rs poll_queue/poll_item/wait_queue"), ("thread selection", "src/v1/mod.rs add_threads")],
  state=[("queue", "operations not yet written, in output order", "src/v1/threaded_writer.rs ThreadedWriter.queue")],
  observe=["bytes produced with threads against bytes produced without"])

p("C07", "Any change to the tree changes the signature",
  "If two trees differ in any path, entry type, file byte, file length, owner-executable bit or symlink target, their signatures differ in the body and in the final hash. In particular no two different names or targets are written alike.",
  ["inputs", "histories"],
  "every tree and every single or multi-step change to it (byte flips at any position of any block, appends, truncations, renames to look-alike names, retargeting, type swaps, moves between directories, added or removed empty directories)",
  "No test compares the signatures of two related trees.",
  SCAN + ["src/v1/hash.rs"], [("everything written is hashed", "src/v1/writer.rs HashWriter"), ("injective escaping", "src/v1/writer.rs Name")],
  observe=["scan outputs and get_hash() of both trees"])

p("C08", "A scan never reports success unless the whole signature was stored",
  "When the output sink fails at any point (error, zero-length write, failing flush, disk full), the scan returns a write error, and what reached the sink is a prefix of the correct signature. If the scan returns success, every byte of the signature has been handed to and flushed through the sink, also behind a buffered writer. Short and interrupted writes leave the output unchanged.",
  ["fault_sequences", "crash_points", "inputs"],
  "every byte position at which the sink can fail x every kind of write fault x sync/threaded x progress x direct/buffered sink",
  "All tests write to a Vec, which cannot fail.",
  ["src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/v1/progress.rs", "src/v1/mod.rs", "src/bin/index.rs"],
  [("error mapping to WriteError", "src/v1/writer.rs, src/v1/threaded_writer.rs"), ("hash only what was written", "src/v1/writer.rs HashWriter::write")],
  observe=["return value of v1::scan and bytes accepted by the sink"])

p("C09", "A scan never hides a source error",
  "If opening, listing, stat-ing, reading or resolving any directory, file or symlink fails during a scan, or an already listed entry vanishes or changes type before it is read, the scan returns an error naming that kind of failure and never emits a finished signature. Files that merely change size during the scan still give a well-formed signature or an error.",
  ["fault_sequences", "inputs", "schedules"],
  "every system call of a scan failing, at every index, for every tree, sync and threaded; every removal or replacement of a listed entry at every point of the output; unreadable files and directories",
  "No test has an unreadable, vanishing or failing file.",
  ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/error.rs"],
  [("error propagation", "src/v1/scan.rs map_err, src/v1/threaded_writer.rs fut.wait()/poll")],
  observe=["return value of v1::scan, completeness of the bytes produced"])

p("C10", "A scan is read-only and never leaves the directory",
  "Scanning never follows a symlink found in the tree, never opens or lists anything outside the scanned directories, and never changes the tree. It terminates on symlink loops and leaves no open descriptors to the tree behind.",
  ["inputs", "schedules"],
  "every tree with symlinks to outside directories and files, to ancestors and to each other; every replacement of a directory or file by a symlink while the scan runs; every thread count",
  "No test tree contains a symlink.",
  ["src/v1/scan.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs"],
  [("openat-based traversal without following links", "src/v1/scan.rs sub_dir/list_dir"), ("d_type / lstat classification", "src/v1/scan.rs")],
  observe=["file-system events on an outside directory, snapshot of the tree before and after, /proc/self/fd, scan output"])

p("C11", "The parser returns exactly the entries a valid signature describes",
  "For every well-formed v1 signature the parser accepts it and yields its header fields and, in order, one entry per line with the exact unescaped path (joined to its directory), type, executable flag, size, symlink target and hashes, then ends cleanly and stays ended. Hash accessors agree with the text: count ceil(size/block_size), each hash by index and by iteration, block size and hash type. How the reader splits or interrupts its reads does not matter.",
  ["inputs", "configurations"],
  "every well-formed signature: all hash types, any block size and sizes up to 2^64-1, any escaped names, extra header attributes, empty trees; every chunking of the reader",
  "tests/parser.rs parses a handful of literal documents with one escape and one or two hashes.",
  ["src/v1/parser.rs", "FORMAT.v1.rst"],
  [("Header::parse, Entry::parse, parse_hashes, unescape_hex", "src/v1/parser.rs"), ("EntryIterator", "src/v1/parser.rs")],
  state=[("current directory", "directory that following entries belong to", "src/v1/parser.rs EntryIterator.current_dir")],
  observe=["Parser::get_header, iter(), Entry, Hashes public accessors"])

p("C12", "The parser rejects malformed and truncated signatures, naming the line",
  "A signature that is truncated at any byte, or has a wrong magic, version, hash type or block size, an unknown entry type, a missing or extra field, doubled spaces, a wrong number or length of hashes, a non-hex or non-numeric field, a bad footer, or anything after the footer, is reported as an error and never as a clean end. Every entry before the fault is still returned unchanged, and the error names the number of the faulty line, also after skipping ahead. A fault is reported once: what is read after it is further down, and reading ends.",
  ["inputs", "fault_sequences"],
  "every well-formed signature x every truncation point and every documented kind of fault at every line, read with next or advance",
  "A few literal error cases are tested on single rows; truncation is tested at one byte, line numbers in two messages.",
  ["src/v1/parser.rs"],
  [("ParseRowError / ParseError", "src/v1/parser.rs"), ("row counting", "src/v1/parser.rs EntryIterator::parse_entry")],
  observe=["items of the iterator, Display of ParseError"])

p("C13", "Untrusted bytes never crash, hang or blow up the readers",
  "For every byte string, opening it as a signature, iterating it, advancing to any valid target, merging it with others and extracting its hash return results or errors: they never panic, never loop without consuming input, yield finitely many items, and use memory proportional to the input's longest line.",
  ["inputs", "histories"],
  "every byte string (random, grammar-derived, mutated valid signatures, huge numbers, zero block size, entries before any directory, odd names) x every sequence of next/advance/merge calls",
  "Tests only feed short hand-written documents; none has a huge number or an out-of-place line.",
  ["src/v1/parser.rs", "src/v1/merge.rs", "src/read.rs"],
  [("Entry::parse arithmetic and buffers", "src/v1/parser.rs"), ("EntryKind comparison", "src/v1/parser.rs"), ("get_hash", "src/read.rs")],
  observe=["termination, panics, item count and peak allocation of the public reading API"])

p("C14", "Any mix of next and advance behaves like a sorted cursor",
  "Over a well-formed signature, every sequence of next and advance calls returns what a cursor over the sorted list of entries would: advance returns the first entry at or after the cursor that equals the target and moves past it, otherwise it stops before the first greater entry and returns nothing, and next returns the entry at the cursor. A target before the cursor consumes nothing, and no entry is lost, repeated or attributed to a wrong directory.",
  ["histories", "inputs"],
  "every well-formed signature x every sequence of next/advance operations with present, absent, earlier and later targets of both kinds, path argument types included",
  "Four fixed scripts of at most eight calls over one document each.",
  ["src/v1/parser.rs"],
  [("held row after a miss", "src/v1/parser.rs EntryIterator::advance/parse_entry")],
  state=[("held row", "row read but not yet consumed", "src/v1/parser.rs EntryIterator.current_row")],
  observe=["results of EntryIterator::next and advance"])

p("C15", "Entry kinds are totally ordered exactly as entries appear in files",
  "Comparing entry kinds is a total order: directories by path components in byte order, the entries of a directory by name directly after it and before every subdirectory, and a directory line never equal to a file line. It agrees with the order in which a scan writes the same tree, with equality, with partial_cmp, and with every path type.",
  ["inputs"],
  "every pair and triple of absolute directory and file paths with arbitrary component bytes, and every scanned tree",
  "One test compares nine fixed single-character paths.",
  ["src/v1/parser.rs", "src/v1/scan.rs"],
  [("impl Ord for EntryKind", "src/v1/parser.rs")],
  observe=["cmp, partial_cmp, eq, sort on EntryKind; order of scan output"])

p("C16", "Merged iteration is a lossless k-way merge",
  "Iterating merged signatures yields groups in sorted order, each holding for one entry kind exactly the entries of all signatures that contain it, in the order the signatures were given and under their own keys, until all are exhausted. Mixed with advance calls, it behaves like advancing a cursor over each signature separately. A fault in one signature is reported under its key and neither loses, alters nor duplicates the entries of the others.",
  ["histories", "inputs", "fault_sequences"],
  "every list of 0..n well-formed signatures with overlapping content x every sequence of next/advance; every position of a fault in any one of them",
  "Three fixed pairs of signatures; no faults, no next after advance misses.",
  ["src/v1/merge.rs", "src/v1/parser.rs"],
  [("minimum selection over peeked heads", "src/v1/merge.rs MergedEntriesIterator::next"), ("peeked advance", "src/v1/merge.rs PeekableEntryIterator::advance")],
  state=[("head", "entry peeked but not yet delivered", "src/v1/merge.rs PeekableEntryIterator.head")],
  observe=["groups returned by MergedSignatures::iter().next()/advance()"])

p("C17", "Merging accepts exactly signatures with one hash type and block size",
  "Building a merge over any list of signatures succeeds if and only if all of them share hash type and block size; otherwise it fails, hash types first, listing every signature's value in order. Merging signature files by path behaves exactly like merging their contents in the order added, and an unopenable or invalid file is an error that identifies it as I/O or parse failure.",
  ["inputs", "configurations"],
  "every list (also empty and single) of headers and files, mismatch at any position",
  "Two fixed two-element mismatches; FileMergeBuilder is never tested.",
  ["src/v1/merge.rs"],
  [("check_same", "src/v1/merge.rs"), ("FileMergeBuilder::finalize", "src/v1/merge.rs")],
  observe=["MergedSignatures::new, FileMergeBuilder::finalize results"])

p("C18", "The extracted signature hash is the footer, or an error",
  "Extracting the hash of a signature file returns exactly the 32 bytes of its footer for every well-formed signature, of any size and hash type, however the underlying reader splits its reads. It returns an error for every truncated signature, wrong magic, unknown hash type, missing final newline and non-hex footer, and for failing reads or seeks.",
  ["inputs", "fault_sequences"],
  "every well-formed signature, every proper prefix of it, every corruption of header magic, hash type or footer, every read chunking and I/O fault",
  "One test extracts the hash of one literal document from a Cursor.",
  ["src/read.rs"],
  [("get_hash", "src/read.rs")],
  observe=["get_hash()"])

p("C19", "Hashing and checking a file agree with the format and with each other",
  "Hashing a stream returns its length and exactly the hashes the format prescribes for it, that is those a scan writes and a parse returns for a file with that content. Checking a stream against such hashes answers yes if and only if the stream has the same bytes (and never against hashes that differ in any bit), for every block size and hash type, however reads are split or interrupted, and read errors are reported rather than answered.",
  ["inputs", "fault_sequences"],
  "every content (empty, exact multiples of the block size, off-by-one), every block size, every hash type, every altered, extended or truncated variant, every reader chunking and fault",
  "Two fixed 4-byte-block examples.",
  ["src/v1/parser.rs", "src/v1/hash.rs"],
  [("Hashes::hash_file, Hashes::check_file", "src/v1/parser.rs"), ("hash_and_size", "src/v1/hash.rs")],
  observe=["Hashes::hash_file, check_file, len, get, iter, equality"])

p("C20", "What the emitter writes is what the parser reads",
  "For every header, and every ordered sequence of directories, files and symlinks, the emitter writes exactly the canonical v1 text, including a newline-terminated footer for every hash type, and parsing it gives the sequence back. Re-emitting a parsed signature reproduces it byte for byte, a failing sink makes the failing call return an error, short writes do not alter the output, and a relative directory path panics as documented.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of emitter calls in format order with arbitrary names, targets, sizes and hashes; all hash types; every sink fault position and write chunking",
  "One unit test emits one tree with one hash type.",
  ["src/v1/emitter.rs", "src/v1/parser.rs"],
  [("Emitter", "src/v1/emitter.rs"), ("HashTrait::write_hash", "src/v1/emitter.rs")],
  observe=["bytes written by Emitter; Parser over them"])

p("C21", "Producing and reading signatures uses bounded resources",
  "The memory used to read or merge signatures does not grow with the number of entries, and the memory used to scan does not grow with the total number of entries or with file contents, only with the widest directories along one path and the hash text of the files in flight. With threads, the number of entries in flight never exceeds the configured queue size (by default one proportional to the threads) by more than a constant, and open descriptors stay within the same bound.",
  ["inputs", "configurations", "schedules"],
  "every signature length, tree size and file size; every thread count and queue size; slow first files",
  "All tests are a few hundred bytes and measure nothing.",
  ["src/v1/parser.rs", "src/v1/merge.rs", "src/v1/scan.rs", "src/v1/threaded_writer.rs", "src/config.rs"],
  [("row-at-a-time parsing", "src/v1/parser.rs EntryIterator"), ("queue_limit", "src/v1/threaded_writer.rs poll_queue")],
  state=[("queue", "entries in flight", "src/v1/threaded_writer.rs")],
  observe=["peak of a counting allocator, opened-but-unwritten files, open descriptors"])

p("C22", "Several roots are indexed as their union",
  "Scanning several directories added at `/` gives exactly the signature of one directory holding the union of their contents, directories present in several of them being merged, independently of how the content is split over roots. A directory added under another prefix appears below that prefix, and a configuration without any root directory is an error.",
  ["inputs", "configurations"],
  "every tree split in every way over one to four roots with shared directories, any order of roots, any thread count and hash type; any prefix",
  "One test merges two fixed trees sharing one directory; prefixes other than / are never used.",
  ["src/v1/scan.rs", "src/config.rs"],
  [("find_roots, grouping of equal subdirectories", "src/v1/scan.rs")],
  observe=["bytes produced by v1::scan"])

p("C23", "The index command writes what the library scans and tells the truth",
  "For every directory and combination of options, `index` prints or writes to the given file exactly the signature the library computes, regardless of thread count and progress output, and exits with zero only if that signature was completely stored. On unreadable or missing directories, unwritable outputs, full disks and bad options it exits nonzero with a message on stderr, and with -q nothing but errors goes there. It is the same with and without thread support compiled in, and a PREFIX:DIR argument places DIR below PREFIX.",
  ["inputs", "configurations", "fault_sequences"],
  "every tree x --hash x --threads x progress options x stdout/file output x failing outputs, for both feature sets",
  "src/bin/index.rs has no tests at all.",
  ["src/bin/index.rs", "src/config.rs"],
  [("option handling and exit codes", "src/bin/index.rs run()")],
  observe=["stdout, output file, stderr and exit status of the built binary"])

p("C24", "Auditing a directory against its signature finds exactly the changes",
  "Parse the signature of a directory and verify each entry with the public API (type, size, executable flag, symlink target, block hashes): an unchanged directory verifies completely. After any set of modifications exactly the modified, added and removed paths are reported.",
  ["inputs", "histories"],
  "every tree, every hash type and thread count, every set of modifications (content at any offset with unchanged size, size, executable bit, target, type, additions, removals)",
  "No test uses a scanned signature to verify files.",
  ["src/v1/parser.rs", "src/v1/scan.rs", "src/v1/hash.rs"],
  [("Hashes::check_file over parsed entries", "src/v1/parser.rs"), ("scan", "src/v1/scan.rs")],
  observe=["set of paths that fail verification"])

p("C25", "Progress reports are true and never change the outcome",
  "With progress reporting on, the signature and the outcome of a scan are the same as without it, even if standard error cannot be written. What is reported is true: the numbers of directories, files and symlinks never go down or exceed those of the tree, a scan that succeeds ends with one `Done` line holding the numbers of entries in the signature and the start of its footer, and a scan that fails is never reported as done. Without progress reporting nothing is written to standard error.",
  ["inputs", "configurations", "fault_sequences"],
  "every tree, hash type, thread count and queue size, standard error a file, full or closed, failing sinks and sources; every sequence of -q, --no-progress and --progress",
  "No test switches progress on.",
  ["src/v1/progress.rs", "src/v1/scan.rs", "src/v1/mod.rs", "src/bin/index.rs", "src/config.rs"],
  [("Progress, a writer around the writer", "src/v1/progress.rs"), ("choice of the writer", "src/v1/mod.rs scan"), ("-q, --no-progress, --progress", "src/bin/index.rs")],
  state=[("files, dirs, symlinks", "entries passed on so far", "src/v1/progress.rs")],
  observe=["standard error and sink of v1::scan and of the binary"])

p("C26", "Signatures are enough to synchronise directories",
  "From the signatures of two directories a client can turn one into the other, as a synchroniser would: comparing the entries, by merging the files or by advancing one parser to the entries of the other, it removes what is not listed, creates directories and symlinks, and rebuilds each changed file from blocks of the old file whose hashes match and blocks requested from the other side. The result equals the other directory, and no block is requested that the old file of that path has at the same position, so equal directories cause no request.",
  ["inputs", "histories"],
  "every pair of trees, related by edits or unrelated, every hash type, thread count and way of comparing",
  "No test connects scanning, merging, advancing and hashes; each is tried alone on committed files.",
  ["src/v1/scan.rs", "src/v1/parser.rs", "src/v1/merge.rs", "src/v1/hash.rs"],
  [("FileMergeBuilder, MergedSignaturesIterator", "src/v1/merge.rs"), ("EntryIterator::advance", "src/v1/parser.rs"), ("Hashes::get, Hashes::iter", "src/v1/parser.rs")],
  observe=["entries and hashes of two scans; requested blocks and rebuilt content"])

p("C27", "Independent uses do not influence each other",
  "Scans, parsers, merges, emitters, file checks and footer reads that share no object do not influence each other: each gives the result it gives alone, whatever ran before it on the same or another thread, failed halfway, or runs at the same time or in turns with it.",
  ["inputs", "histories", "schedules"],
  "every sequence and concurrent combination of operations, including failing ones, and every interleaving of several parsers and emitters on one thread",
  "Every test uses one object of its own and looks at one result.",
  ["src/v1/mod.rs", "src/v1/threaded_writer.rs", "src/v1/parser.rs", "src/v1/emitter.rs", "src/v1/hash.rs", "src/read.rs"],
  [("state kept per object; a thread pool per scan", "src/v1/threaded_writer.rs, src/v1/parser.rs, src/v1/emitter.rs")],
  observe=["results of the public operations, alone and together"])

p("C28", "Options mean the same whatever the order they are set in",
  "What a scan does is determined by the directories added and the last value given to each option, however often and in whatever order they were set, and scanning leaves the configuration as it was. Unset options have their documented defaults: sha512/256, no progress, and hashing in the calling thread; otherwise no more threads than configured read files. Hash types have exactly the names of the format, which parsing and printing agree on, and any other name is an error.",
  ["configurations", "histories"],
  "every sequence of setter calls and scans, every thread count and queue size; every string as the name of a hash type",
  "Every test sets each option at most once and scans once.",
  ["src/config.rs", "src/hash_type.rs", "src/v1/mod.rs"],
  [("setters", "src/config.rs"), ("FromStr, Display, output_bytes", "src/hash_type.rs"), ("choice of the writer", "src/v1/mod.rs")],
  state=[("ScannerConfig", "options set so far", "src/lib.rs")],
  observe=["v1::scan output, stderr, threads opening files"])

p("C29", "Each part of a signature describes its part of the tree only",
  "The part of a signature below a directory is, with the prefix of the paths removed, the signature of that directory scanned alone. Changing a tree changes the lines directly below a directory if and only if something directly in that directory was changed.",
  ["inputs", "configurations"],
  "every tree, subdirectory, hash type and thread count, every set of changes",
  "Every test compares one tree with one committed text.",
  SCAN, [("directory walk", "src/v1/scan.rs scan()"), ("entry lines", "src/v1/writer.rs, src/v1/threaded_writer.rs")],
  observe=["bytes produced by v1::scan"])

p("C30", "Whatever a scan leaves out is reported",
  "For every entry that is neither a directory, a regular file nor a symlink, and so is not part of the signature, a scan logs exactly one warning naming its path on disk, whatever the number of roots, threads or the way its type is found out; a successful scan warns about nothing else. The index command shows these warnings on standard error by default. Logging never changes the signature.",
  ["inputs", "configurations"],
  "every tree with any number of special files anywhere, all roots and thread counts",
  "No test creates a special file.",
  SCAN, [("special files", "src/v1/scan.rs scan(), T::Other"), ("logging", "src/bin/index.rs run()")],
  observe=["log records of v1::scan", "stderr of the index command"])

p("C31", "Operations leave nothing behind",
  "Scans, parses, merges, emits, file checks and footer reads, whether they succeed, fail or are abandoned halfway, give back what they took once they have returned and their results are dropped: repeating them any number of times makes neither the heap memory nor the number of open descriptors grow, and the threads a scan started end.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of operations of any length, including failing and abandoned ones, every thread count",
  "Every test runs an operation once, in a process that ends, and looks at its result only.",
  ["src/v1/mod.rs", "src/v1/scan.rs", "src/v1/threaded_writer.rs", "src/v1/parser.rs", "src/v1/merge.rs", "src/v1/emitter.rs", "src/v1/hash.rs"],
  [("thread pool and jobs of a scan", "src/v1/threaded_writer.rs"), ("directory handles", "src/v1/scan.rs"), ("parsers opened by a merge", "src/v1/merge.rs")],
  observe=["live heap bytes, open descriptors and threads of the process after repetitions"])

p("C32", "Entries compare equal exactly when they say the same",
  "Two entries, lists of hashes or hash types are equal, and hash equally, if and only if they say the same: the same kind of entry, path, size, executable bit, target, and the same hashes of the same type and block size in the same order. Copies are equal to their originals, and an entry's kind and path, and the number, order and values of its hashes, are the same however they are asked for.",
  ["inputs"],
  "every pair of entries, however small the difference and wherever it is, with any number of hashes",
  "A test compares three pairs of lists of a single byte.",
  ["src/v1/parser.rs", "src/lib.rs", "src/hash_type.rs"],
  [("Entry, Hashes, EntryKind", "src/v1/parser.rs"), ("HashType", "src/lib.rs")],
  observe=["==, !=, Hash, Clone and accessors of the public values"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
