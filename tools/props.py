"""The properties' texts: properties.jsonl and MANIFEST.json are generated from these (tools/gen.py)."""
P = []; NA = []
D = "devel/include/"; A = D + "detail/wtr/watcher/adapter/"
INO = A + "linux/inotify/watch.hpp"; FAN = A + "linux/fanotify/watch.hpp"; LIN = A + "linux/watch.hpp"; SYS = A + "linux/sysres.hpp"; WATCH = D + "wtr/watcher-/watch.hpp"; SEMA = D + "detail/wtr/watcher/semabin.hpp"; EVENT = D + "wtr/watcher-/event.hpp"; ONE = "include/wtr/watcher.hpp"
def p(id, title, statement, over, text, why, files, mech, level_note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech]), note=level_note))
SYMEX = "Symbolic execution of the LLVM IR compiled from the current headers (both the split and the amalgamated tree), with Z3 deciding every branch and assertion; "
p("C01", "One live message, then events, then one matching die message", "The first thing a callback receives is a message about the watcher starting ('s/self/live@PATH' or 'e/self/live@PATH'), the last is a message about it ending ('s/self/die@PATH' or 'e/self/die@PATH'), and neither kind occurs anywhere else. A watcher which could not start delivers nothing between the two, and one which started and was stopped without error says 's' in both.", ["schedules", "fault_sequences", "inputs"], "every interleaving of opening, closing and the watching thread, every failing system call, every event batch within the bounds", "The tests look at a few runs with one timing each; the framing matters exactly in the rare schedules (closed before started) and failures they do not produce.", [WATCH, LIN, ONE], [("live and die messages around the adapter", WATCH)], SYMEX + "sequentially consistent memory, bounded preemptions and faults")
p("C02", "Closing reports whether the watch was healthy, and always ends", "Closing a watcher returns true exactly if the watcher started and met no fatal error, and false otherwise, including when it is closed again. Closing (or destroying) a watcher always ends, whatever the watcher is doing.", ["schedules", "fault_sequences"], "every interleaving of close and the watching thread and every placement of failing system calls within the bounds", "Tests close healthy, idle watchers; the answer is interesting for races with startup and for failures.", [WATCH, LIN, SEMA, ONE], [("close releases the semaphore and joins the future", WATCH), ("result classes", SYS)], SYMEX + "one close per thread, bounded preemptions and faults")
p("C03", "No callback runs after close or destruction", "Once closing or destroying a watcher has returned, its thread is gone and its callback is neither running nor ever entered again.", ["schedules"], "every interleaving with up to 3 (5) preemptions at system calls, locks and atomic operations", "A callback after close needs a particular interleaving, and shows up in a test only if the memory it touches is already reused.", [WATCH, ONE], [("close waits for the watch's result", WATCH)], SYMEX + "bounded preemptions")
p("C04", "Events never delay a stop request", "After a stop is requested, the watcher handles at most the events it has already begun to handle, however many more are waiting, and then ends.", ["schedules", "histories"], "every interleaving with a kernel which always has one more event", "A test cannot keep the event queue non-empty at every wake-up.", [LIN, ONE], [("event loop", LIN)], SYMEX + "bounded preemptions")
p("C05", "Every descriptor is closed once and never inherited", "Whatever fails and however a watcher ends, every file descriptor and directory stream it opened is closed exactly once when it is gone, no descriptor it does not own is closed, and descriptors are opened close-on-exec.", ["fault_sequences", "schedules"], "every placement of up to 2 (4) failing calls and every bounded interleaving, on both kernel interfaces, with descriptor 0 free or in use", "Leaks and double closes happen on failure paths no test takes.", [LIN, INO, FAN, SYS, SEMA, ONE], [("resources made and released around the event loop", LIN)], SYMEX + "bounded faults; kernel modelled in harness/world.hpp")
p("C06", "Every fatal error and every unwatched directory is reported", "If a watcher gives up, exactly one message with the prefix 'e/' naming the failing facility and the watched path precedes the die message; if a directory cannot be watched, a message 'w/sys/not_watched@DIRECTORY' says so. Without a failure there is no such message.", ["fault_sequences"], "every placement of up to 2 (4) failing calls in starting, waiting and reading", "The tests never make a system call fail.", [LIN, SYS, INO, FAN, ONE], [("result codes and send_msg", SYS)], SYMEX + "bounded faults")
p("C07", "fanotify is used only when permitted, inotify otherwise", "An unprivileged watcher uses inotify; a privileged one uses fanotify, or inotify if the system refuses fanotify, and never both. The fallback is not reported as an error and leaves nothing of the refused attempt behind.", ["configurations", "fault_sequences"], "privileged or not, fanotify permitted or refused, with up to 2 (4) further failing calls", "A test run has one privilege level on one kernel.", [LIN, ONE], [("try_fanotify", LIN)], SYMEX + "bounded faults")
p("C08", "Interruptions and survivable failures do not stop the watch", "A wait interrupted by a signal, an empty or interrupted read, a refused directory or an unresolvable event never ends the watch: an event which the kernel delivers afterwards still reaches the callback.", ["fault_sequences", "schedules"], "every placement of an interruption, an empty read and up to 2 (4) survivable failures before one event", "Tests do not send signals at the moment of a wait.", [LIN, INO, FAN, ONE], [("event loop", LIN)], SYMEX + "bounded faults")
K = "Kernel event batches are decided by timing and load; the tests see the few shapes that creating, renaming and deleting files one by one produces."
p("C09", "inotify: each change is delivered once, in order, with its kind and path", "Each record the kernel reports for a watched directory's entry (create, delete, modify, move) reaches the callback exactly once and in order, with the corresponding effect, the type directory or file as the kernel says, and the path of the directory joined with the name. Records about the directory itself, unrequested records and access records are not delivered.", ["inputs", "histories"], "every batch of up to 2 records with any mask, descriptor, cookie and short name, and 2 successive batches (3 in the thorough tier)", K, [INO, ONE], [("parse_ev, do_ev_recv", INO)], SYMEX + "bounded batches, names of 1-2 bytes")
p("C10", "inotify: the two halves of a rename become one event, old name first", "A moved-from and a moved-to record which are adjacent and share a cookie, in either order, are delivered as exactly one event whose path is the old path and whose associated path is the new one, also across directories. A half without its partner is delivered alone, with no associated path.", ["inputs", "histories"], "every batch of up to 2 (3) records with any masks, cookies and descriptors", K, [INO, ONE], [("isassoc, isfromto", INO)], SYMEX + "bounded batches")
p("C11", "inotify: directories which appear are watched, contents included", "When a directory is created in, or moved into or within, the tree, it and the directories below it are watched for all effects before its event is delivered, and events in them are reported under the new path. If that fails the callback is told which directory is not watched, and nothing else is watched.", ["inputs", "histories", "fault_sequences"], "every batch and pair of batches within the bounds, every answer of the filesystem (gone, refused, already watched, with a subdirectory)", K, [INO, SYS, ONE], [("walkdir_do, do_mark", INO)], SYMEX + "bounded batches; one subdirectory per new directory")
p("C12", "inotify: overflow and unknown descriptors are reported, nothing else lost", "A queue overflow is reported as 'w/sys/q_overflow@' and a record for an unknown watch as 'w/sys/phantom@', once for each such record, and the rest of the batch is delivered as usual. A watch whose directory was deleted stays known until the kernel's last record about it, however the records are split over reads.", ["inputs", "histories"], "every batch of up to 2 (3) records and 2 (3) successive batches", K, [INO, ONE], [("do_ev_recv, defer_dm_rm_wd", INO)], SYMEX + "bounded batches")
p("C13", "inotify: full buffers and short reads are handled exactly", "For every mix of effects and name lengths, each record of a read which fills the whole buffer is delivered once, nothing left over from an earlier read is delivered again or paired with, and no memory outside what was read is used.", ["inputs", "histories"], "full reads of records with names of 1, 4, 15, 16, 254 or 255 bytes, then a read of 1 to 3 records with any effects", "Filling a buffer to the last byte depends on timing and name lengths.", [INO, ONE], [("buffer limits, peek", INO)], SYMEX + "six name lengths, four effects")
p("C14", "fanotify: each change is delivered once, in order, with its kind and path", "Each usable record is delivered exactly once and in order, with one of the effects it reports, the type directory or file as the kernel says, and the path the directory handle resolves to joined with the entry's name (or the directory itself for the entry '.'). This holds for directories on any filesystem below the watched path, wherever the program was started.", ["inputs", "histories"], "every batch of up to 2 (3) records with any requested effect, directory and short name, and 2 successive batches; a tree on two filesystems, with the working directory on either or on a third", K, [FAN, ONE], [("pathof, parse_ev, do_ev_recv", FAN)], SYMEX + "bounded batches, names of 1-2 bytes")
p("C15", "fanotify: the two halves of a rename become one event, old name first", "A moved-from and a moved-to record which are adjacent, in either order, are delivered as exactly one event whose path is the old path and whose associated path is the new one. A half without a usable partner next to it is delivered alone, with no associated path.", ["inputs", "histories"], "every batch of up to 2 (3) records", K, [FAN, ONE], [("parse_ev", FAN)], SYMEX + "bounded batches; fanotify gives no cookie, so adjacency is the criterion")
p("C16", "fanotify: directories which appear are watched, contents included", "When a directory is created in, or moved into or within, the tree, it and the directories below it are marked for all effects before its event is delivered. If that fails the callback is told which directory is not watched, and nothing else is marked.", ["inputs", "histories", "fault_sequences"], "every batch and pair of batches within the bounds, every answer of the filesystem", K, [FAN, SYS, ONE], [("do_mark_if_newdir", FAN)], SYMEX + "bounded batches; one subdirectory per new directory")
p("C17", "fanotify: unusable records are reported and do not hide the others", "An overflow, a record carrying a descriptor, a record without directory information and a record whose directory is gone are each reported once ('w/sys/q_overflow@', 'w/sys/bad_fd@', 'w/sys/bad_meta@', 'w/sys/bad_fd@'), stray descriptors are closed, and the rest of the batch is delivered. A record of another interface version ends the watch with 'e/sys/lim/kernel_version@PATH'.", ["inputs", "fault_sequences"], "every batch of up to 2 (3) records of any kind", K, [FAN, ONE], [("do_ev_recv", FAN)], SYMEX + "bounded batches")
p("C18", "fanotify: full buffers, short reads and long paths are handled exactly", "Each record of a read which fills the whole buffer is delivered once, nothing left over from an earlier read is delivered again or paired with, and no memory outside what was read is used, whatever the lengths of names and directory paths.", ["inputs", "histories"], "full reads of records with names of 1 to 255 bytes, then a read of 1 to 3 records with any effects; directory paths from 2 to 4095 bytes", "Filling a buffer to the last byte depends on timing and name lengths.", [FAN, ONE], [("peek, pathof", FAN)], SYMEX + "six name lengths, nine directory lengths")
p("C19", "Starting watches every reachable directory of the tree, and only those", "When a watcher starts, every directory below the watched path which can be reached through listable directories is watched, whatever its name and however deep it is, including directories which cannot be listed themselves and on filesystems which do not give entry types. Symbolic links are not followed, nothing outside the tree is watched, and the walk ends.", ["inputs", "configurations"], "every tree of up to 3 entries, and 4 without links (4 and 5 in the thorough tier), with links out of the tree, back to its root and dangling; chains of up to 12 directories of which 3 may be open at once; paths 8 bytes below to 4 above the longest which there can be", "The tests build two or three fixed trees on one filesystem.", [SYS, INO, FAN, ONE], [("walkdir_do", SYS)], SYMEX + "bounded trees")
EH = "The tests compare a handful of fixed events."
p("C20", "Two events are equal exactly when everything in them is", "Two events compare equal exactly when their paths, effects, types and times are equal and their associated events, as deep as they go, are absent in both or equal in the same sense. Equality is symmetric and reflexive, and inequality is its negation.", ["inputs"], "every pair of events with short paths, any effect, type and time and up to 2 (3) nested associated events", EH, [EVENT, ONE], [("operator==, operator!=", EVENT)], SYMEX + "paths of up to 2 (3) bytes")
p("C24", "An event holds what it was made from, and its copies are independent", "An event has the path, effect and type it was constructed with, the time of its construction, and the associated event it was given, if any. A copy has the same contents, shares nothing with the original and outlives it.", ["inputs"], "every event with a short path, any effect, type and time and up to 2 (3) nested associated events", EH, [EVENT, ONE], [("constructors", EVENT)], SYMEX + "paths of up to 2 (3) bytes")
p("C21", "Effects and types convert to their documented names", "Each effect and path type converts to its documented name in all narrow and wide string types, values outside the enumerations convert to 'other', and a path converts to its own bytes. Streaming an effect, a type or an event out writes exactly what converting it gives.", ["inputs"], "every effect and type, every other value, paths of up to 3 bytes", EH, [EVENT, ONE], [("to<>", EVENT)], SYMEX + "paths of up to 3 bytes")
p("C22", "An event's text is valid JSON which says what the event says", "Whatever bytes are in the paths, an event converts to text which (inside braces) is valid JSON: one member named by the time, whose value has the event's path, effect and type and, if it has one, its associated event's. The strings read back as the original bytes.", ["inputs"], "every event with paths of up to 2 (3) bytes of any value", "File names may contain any byte; the tests use letters, digits and dots.", [EVENT, ONE], [("to<string>(event)", EVENT)], SYMEX + "paths of up to 3 bytes")
p("C23", "Every time converts to its exact decimal value", "Any 64-bit time converts to narrow and wide text which is its exact decimal value, without padding, with a leading '-' exactly when it is negative.", ["inputs"], "windows of consecutive values around 0, powers of ten, present times and both ends of the range, both signs", "Digit handling goes wrong for particular values only (those with zero groups, the most negative one).", [EVENT, ONE], [("num_to_str", EVENT)], SYMEX + "nine windows of 64 (512) values, and their negatives")
CLIF = "src/wtr/watcher/main.cpp"
p("C33", "The command line program watches what and for as long as it is told", "The program watches exactly the directory given (relative or absolute), or the current one when none is given, for TIME times UNIT, as long as can be represented when that is more; without a positive TIME it watches until it can read a line or its input ends. -h and --help show the help and succeed, and a path which is not a directory fails without watching.", ["inputs"], "every command line of up to 3 arguments made of 7 kinds of path, all 20 units and 17 time texts", "The program's argument handling has no tests; wrong products of unit and time show only after hours.", [CLIF], [("Args::try_parse, main", CLIF)], SYMEX + "texts chosen from lists; sleeping and reading are recorded, not done")
p("C34", "The command line program shows each event as one line of JSON", "Every event is shown as one line which is a JSON object with the fields path_type, path_name, effect_type, effect_time and associated, in the order the events happened, whatever bytes are in the names. The first line is the live message and the last the die message.", ["inputs"], "every batch of up to 2 changes of any kind to names of 1 or 2 bytes of any value", "File names may contain any byte; nothing tests the program's output.", [CLIF, INO, EVENT], [("json, main", CLIF)], SYMEX + "bounded batches, names of 1-2 bytes")
CF = "watcher-c/src/watcher-c.cpp"; CH = "watcher-c/include/wtr/watcher-c.h"; NF = "watcher-nodejs/lib/watcher-napi.cpp"
p("C25", "The C interface passes on every event as it is", "A C callback receives every event once and in order, with the context it was registered with, the event's path, associated path (or null), time, and the header's constants for its effect and type. The first is the live message and the last the die message.", ["inputs", "histories"], "every batch of up to 2 (3) changes with any short names", "The C test prints events and compares nothing.", [CF, CH, INO], [("wtr_watcher_open", CF)], SYMEX + "bounded batches, names of 1-2 bytes")
p("C26", "Closing through the C interface answers truthfully and releases everything", "wtr_watcher_close is true exactly when the watcher ran and ended without error, and false for null, for a handle which was already closed and for one which was never opened. After it, whatever it answered, no callback runs and the watcher's thread, memory and descriptors are released.", ["schedules", "fault_sequences"], "every interleaving of opening, closing and watching with up to 2 (4) preemptions, and every placement of up to 2 (4) failing calls", "Failures and early closes are never tested through this interface.", [CF, WATCH], [("wtr_watcher_close", CF)], SYMEX + "one watcher; sequentially consistent memory")
p("C27", "Every event reaches JavaScript once, in order and unchanged", "Every event the watcher reports while open or closing reaches JavaScript's callback once and in order, with the same paths, time, effect and type numbers and null for no associated path, however long JavaScript was busy and only on its own thread. The path watched is the one given, at any length, and a wrong number of arguments throws and watches nothing.", ["inputs", "schedules"], "up to 2 events with any contents, drained at any point, and 1030 events while JavaScript is busy; paths of 1 to 5000 bytes", "The addon's tests need a network to install what they run on, and never keep JavaScript busy.", [NF], [("callback_bridge, callback_js_receiver, watch", NF)], SYMEX + "Node-API and the C library are played by the harness")
p("C28", "Closing from JavaScript releases everything once", "close() closes the watcher once and answers what the C library answered. The callback's reference and queue are released once, and when waiting events were delivered no memory is left behind.", ["schedules"], "up to 2 events before or while closing, delivered or still waiting, closing well or badly", "Leaks and double releases are invisible to tests which end with the process.", [NF], [("close", NF)], SYMEX + "Node-API and the C library are played by the harness")
RF = "watcher-rs/src/lib.rs"
p("C35", "However the path is spelled, the same is watched and real paths are reported", "Watching a directory spelled as a relative path, with '.', '..', doubled or trailing slashes or through symbolic links watches the same directories as its plain absolute path. Events carry real absolute paths without any of these, and the watcher's own messages name the directory by an absolute path, the same in both.", ["inputs"], "every path of up to 6 (8) characters over '/', '.', and three names which leads to a directory of a tree with two links, an event in any directory below it, both kernel interfaces", "Tests watch plain absolute paths.", [SYS, INO, FAN, WATCH, ONE], [("absolute path", WATCH), ("realpath in the walk and in do_mark", SYS)], SYMEX + "one tree, paths of bounded length")
p("C36", "Watchers in one process are independent", "With two watchers in one process, watching different directories or the same, each callback receives every event of its own watcher once, in order, and nothing of the other's, and each has its own framing and result. Closing, destroying or failing one leaves the other running.", ["schedules", "fault_sequences"], "every interleaving of the two watching threads and the user with up to 2 (3) preemptions at system calls and atomic operations, one failing call, either closed first", "Tests with several watchers run one timing and no failures.", [WATCH, LIN, SYS, SEMA, INO, FAN, ONE], [("per-watch state", WATCH), ("per-watch kernel resources", SYS)], SYMEX + "two watchers, bounded preemptions")
p("C37", "Through any history of changes the tree stays watched under its present path", "After any history of creating, removing, renaming and moving files and directories, within the watched tree, into it or out of it, each change seen by a settled watcher is reported as exactly one event saying what happened, with the path at that time (a rename whose halves are read separately as two). Every directory then in the tree is watched under its present path, and nothing which never was in it is; with inotify, what has left the tree is no longer watched.", ["histories", "inputs", "schedules"], "every history of 3 (quick) or 4 (thorough) operations on small trees, each seen before the next or not (with up to 1 preemption), both adapters, events read together or one at a time", "A test makes one kind of change at a time; stale paths and lost watches appear only after particular sequences.", [INO, FAN, ONE], [("do_mark, un_mark, do_ev_recv", INO), ("do_mark, pathof, do_ev_recv", FAN)], SYMEX + "small trees, short histories; events of changes made while a directory is being added are only checked for the tree staying watched")
p("C38", "The rename program moves the file or says why not, losing nothing", "portable-destructive-rename exits 0 exactly when what its first argument named is now what its second argument names and (unless both already named one file) the first name is gone; if the system allows the rename, it is done. Otherwise it exits with a failure, names the failed call on standard error, the file is still reachable under one of its names and what the destination held is untouched. --help shows the help, exits 0 and moves nothing.", ["inputs", "fault-schedules"], "every pair of arguments, source and destination existing or not, on one filesystem or two, every placement of up to 2 failing calls", "No test makes rename, link or unlink fail, or crosses a filesystem.", ["devel/src/portable-destructive-rename/main.c"], [("main", "devel/src/portable-destructive-rename/main.c")], SYMEX + "two names")
DW = "devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp"
p("C39", "On Darwin every FSEvents record becomes exactly the events it describes", "Whatever FSEvents reports, each record's kind of path and effects are reported as FSEvents' flags say: a creation once until the path is removed, a removal, a modification (other than of the inode alone), and something else as other. A rename is reported once, from the last renamed path not yet paired, when that no longer exists, to the present one; nothing else is reported and a call which lacks its data reports nothing.", ["inputs", "histories"], "every batch of up to 2 records with any flags and 2 to 4 names, or two successive ones, up to 4 (6) renames, any answer to whether a name still exists", "The Darwin adapter is never built nor run by the tests here; flags are coalesced by the system in combinations no test produces on demand.", [DW, ONE], [("event_recv, event_recv_one, open_event_stream", DW)], SYMEX + "FSEvents is played by the harness")
p("C40", "On Darwin closing delivers what is outstanding and releases everything once", "Closing a watch on Darwin delivers the events which happened before it and none after it has returned, in order, and answers true exactly when the stream was made and started. The system's stream is started, stopped, invalidated and released once each and in that order, and no null or dead object is handed to the system, whichever call fails.", ["schedules", "fault_sequences"], "every interleaving of the user, the watching thread and the system's delivering thread with up to 2 (4) preemptions, each system call failing, closed at any time", "The Darwin adapter is never built nor run by the tests here; the schedules matter.", [DW, SEMA, ONE], [("close_event_stream, open_event_stream, wait", DW), ("semabin (Darwin)", SEMA)], SYMEX + "FSEvents, CoreFoundation and Dispatch are played by the harness")
WI = "devel/include/detail/wtr/watcher/adapter/windows/watch.hpp"
p("C41", "On Windows every notification record becomes exactly the event it describes", "Whatever ReadDirectoryChangesW reports, each record is reported once and in order: added as a creation, removed as a destruction, modified as a modification, anything else as other, and the two halves of a rename together, from the old path to the new; paths are those below the watched one, and directories are told from files. Everything below the path is asked for, and others may go on using it.", ["inputs", "histories"], "every read of up to 2 (3) records, any 32-bit action, names of up to 2 characters, packed or padded, or two successive reads", "The Windows adapter is never built nor run by the tests here.", [WI, ONE], [("do_event_recv, do_event_send", WI)], SYMEX + "Win32 is played by the harness; ASCII names")
p("C42", "On Windows a watch releases everything, survives overflow and tells failures", "When a Windows watch is closed, every handle it made has been closed once, no read is pending into its memory, and nothing is reported any more. It goes on reading after each completion, an overflow included, and it answers true exactly when the directory could be opened and every read succeeded, for paths of any length.", ["schedules", "fault_sequences"], "every interleaving of the user, the watching thread and the system with up to 3 (5) preemptions, each system call failing, closed at any time", "The Windows adapter is never built nor run by the tests here; the schedules and failures matter.", [WI, SEMA, ONE], [("watch_event_proxy, watch", WI)], SYMEX + "Win32 is played by the harness")
p("C43", "On Windows the C interface gives every event, with names as UTF-8", "Compiled for Windows, the C interface hands every event to the callback once, with its context, effect, type and time, its path and (just when there is one) its associated path as the UTF-8 for the name's 16-bit units, however long they are. A unit which stands for no character becomes U+FFFD.", ["inputs"], "every name of up to 3 (4) 16-bit units, with an associated one of up to 2 (3) or none; names of 4094 to 4097 and 9000 units ending in any two", "The Windows part of the C interface is never built nor run by the tests here; names and lengths matter.", ["watcher-c/src/watcher-c.cpp"], [("wtr_watcher_open, utf16_to_utf8", "watcher-c/src/watcher-c.cpp")], SYMEX + "WideCharToMultiByte and the C++ watcher are played by the harness")
WH = "devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp"
p("C44", "Where the system cannot notify, scanning tells each file's changes once", "On other systems, where the adapter looks at the tree again and again, each regular file below the watched path which appears, changes its time or disappears between two looks is reported once, as created, modified or destroyed, under its path. What was there at the start, and what has not changed, is not reported; with changes during a look, what was told agrees two looks later with what is there, and what cannot be read does not hide the rest.", ["inputs", "histories"], "every tree of up to 3 (4) names in two levels, each absent, a file or a directory, readable or not; up to 2 (3) looks with up to 2 changes before each and 1 (2) during it, at any call", "This adapter is never built nor run by the tests here; which changes come together, or during a look, matters.", [WH, ONE], [("scan, prune, populate", WH)], SYMEX + "<filesystem>'s iterators and times are played by the harness; links are outside")
p("C45", "Scanning survives what vanishes, and ends when closed or when its path is gone", "A scanning watch is ended by nothing which vanishes or cannot be looked at below its path, at whatever point of a look. It ends, answering false, when the path itself is gone, and answers true when it was closed, after which nothing is reported.", ["schedules", "fault_sequences"], "as in C44, and every interleaving of the user and the watching thread with up to 3 (5) preemptions; the watched directory removed between two looks", "This adapter is never built nor run by the tests here; the point at which a file vanishes matters.", [WH, ONE], [("scan, watch", WH)], SYMEX + "<filesystem>'s iterators and times are played by the harness; links are outside")
KANI = "Kani (CBMC, SAT) over the real lib.rs with the C library and the futures queue played by the harness; counterexamples replayed natively; "
p("C31", "A Rust watch yields every event once, in order and unchanged", "The stream yields every event the C library sends, once and in order, with its time, effect, type, path and associated path (None exactly when there is none); bytes which are not UTF-8 are marked, never dropped with the rest of the path. The path watched is exactly the one given, one which cannot be given to the C library is an error, and serialized events have the documented names.", ["inputs", "schedules"], "any time, effect and type numbers, paths of up to 2 bytes of any value, 2 events and a last one while closing, polled at any point, watched paths of up to 3 characters", "There are no tests of the Rust crate here; the interesting paths and numbers are rare.", [RF, CH], [("ev_from_c, fwd_ev, Watch::try_new", RF)], KANI + "paths of up to 2 bytes")
p("C32", "A Rust watch is closed exactly once", "Whether closed explicitly once, more often or only dropped, a watch closes the C library's watcher exactly once. The first close answers what the C library answered, a later one is an error, and the queue outlives the watcher.", ["histories", "inputs"], "closed 0, 1 or 2 times and then dropped, well or badly, with a last event sent while closing or not", "A double close corrupts memory or closes a stranger's watcher only later, when the handle is reused.", [RF], [("Watch::close, Drop", RF)], KANI + "two explicit closes")
for x in P[-2:]: x["technique"] = "Kani/CBMC bounded model checking of the real Rust code (SAT), counterexamples replayed natively"
PYF = "watcher-py/watcher/watcher.py"; CROSS = "CrossHair (z3) over the real module with ctypes and the C library played by the harness; "
p("C29", "Python receives every event once, in order and unchanged, and as valid JSON", "The Python callback receives every event the C library sends once and in order, with its time, effect, type, path and associated path (None exactly when there is none), also when a name is not UTF-8. to_json gives one valid JSON object saying the same, and the path watched is exactly the one given or an error is raised.", ["inputs"], "any time, every effect and type, paths of every single byte and pairs of characteristic bytes, up to 4 events", "The Python package has no tests here; the interesting names are rare.", [PYF, CH], [("_c_event_to_event, Event.to_json, Watch.__init__", PYF)], CROSS + "listed texts")
p("C30", "A Python watch is closed exactly once", "Whether closed explicitly, by leaving a with block in any way or by being deleted, and however often, a watch closes the C library's watcher exactly once, with the whole handle. A watcher which could not be opened raises and closes nothing.", ["histories"], "every way of closing, repeated up to 2 times, closing well or badly", "A double close corrupts memory only later.", [PYF], [("Watch.close, __exit__, __del__", PYF)], CROSS + "two repetitions")
for x in P[-2:]: x["technique"] = "symbolic execution of the real Python module with CrossHair (z3), counterexamples replayed in plain Python"
