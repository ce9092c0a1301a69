"""What each property's check explores: harnesses, parameters, bounds, assumptions."""
def H(src, **k): return dict(src=src, **k)
def case(h, tiers=("quick", "thorough"), covers=(), preempt=0, **params): return dict(harness=h, params=params, tiers=tiers, covers=list(covers), preempt=preempt)
Q = ("quick", "thorough"); T = ("thorough",)
INO = H("h_inotify.cpp"); FAN = H("h_fanotify.cpp"); BIG = H("h_big.cpp"); FAULT = H("h_fault.cpp"); LIFE = H("h_life.cpp", tsan=True); WALK = H("h_walk.cpp"); ROOT = H("h_root.cpp")
KERNEL = ["system calls answer as their manual pages say (harness/world.hpp); IR of the C++ library's inline code is executed, out-of-line functions are the models in model/", "memory is sequentially consistent; threads switch at system calls, locks and atomic operations"]
SPECS = {}
def prop(pid, slug, cases, bounds, explain, assumptions=KERNEL, **k): SPECS[pid] = dict(slug=slug, cases=cases, bounds=bounds, explain=explain, assumptions=list(assumptions), **k)

life = [case(LIFE, preempt=3, mode=0, nev=1), case(LIFE, preempt=3, mode=1, nev=1), case(LIFE, preempt=2, mode=2, nev=2), case(LIFE, preempt=2, mode=0, nev=1, wait=1, covers=["ran"]), case(LIFE, preempt=3, mode=0, bad=1, covers=["never-ran"]), case(LIFE, preempt=2, mode=0, endless=1),
        case(LIFE, T, preempt=5, mode=0, nev=1), case(LIFE, T, preempt=5, mode=1, nev=1), case(LIFE, T, preempt=4, mode=2, nev=2), case(LIFE, T, preempt=4, mode=0, endless=1)]
def fault(*cov): return [case(FAULT, root=r, ev=1, eintr=1, budget=2) for r in (0, 1, 2)] + [case(FAULT, root=r, ev=0, budget=1) for r in (0, 2)] + [case(FAULT, root=0, sub=0, ev=0, budget=1)] + [case(FAULT, root=r, ev=1, fd0=1, budget=1) for r in (0, 2)] + [case(FAULT, root=2, ev=1, close=0, budget=1)] + [case(FAULT, T, root=r, ev=1, eintr=1, budget=4) for r in (0, 1, 2)]
LB = "one watcher, one user thread and the watcher's thread; every interleaving with up to 3 (quick) or 5 (thorough) preemptions at system calls, locks and atomics; up to 2 event reads; open, close, close twice, destroy"
FB = "every placement of up to 2 (quick) or 4 (thorough) failing calls, one interrupted wait, descriptor 0 in use or not, both kernel interfaces, a tree of 3 directories, one event"
IB = "every batch of up to 2 inotify records (any mask bit, any descriptor known or unknown, any cookie, any 1-2 byte name), or 2 successive batches of 1; new directories with one subdirectory; any answer of the filesystem to the watcher's questions"
ino_q = [case(INO, nb=1, ne=2), case(INO, nb=1, ne=1, wide=1), case(INO, nb=2, ne=1, kids=1, exist=1)]
ino_e = [case(INO, nb=1, ne=2), case(INO, nb=1, ne=1, wide=1), case(INO, nb=2, ne=1)]
ino_m = [case(INO, nb=1, ne=4, moves=1)]; fan_m = [case(FAN, nb=1, ne=4, moves=1)]
ino_t = [case(INO, T, nb=1, ne=3), case(INO, T, nb=1, ne=2, kids=1, exist=1, wide=1), case(INO, T, nb=3, ne=1)]
fan_q = [case(FAN, nb=1, ne=2, odd=1, kids=1), case(FAN, nb=1, ne=1, wide=1), case(FAN, nb=1, ne=1, merged=1), case(FAN, nb=2, ne=1), case(FAN, nb=1, ne=2, mounts=1, covers=["same-filesystem", "other-filesystem"])]
fan_t = [case(FAN, T, nb=2, ne=1, kids=1, odd=1), case(FAN, T, nb=1, ne=3), case(FAN, T, nb=1, ne=2, merged=1, wide=1)]
FANB = "every batch of up to 2 fanotify records (any requested effect, any record kind, live or stale directory, any 1-2 byte name), or 2 batches of 1; new directories with one subdirectory; any answer of the filesystem; a second filesystem below the first, the working directory on either or a third"
def cov(cs, **m):
    """a copy of the cases, some with points they must reach"""
    out = [dict(c) for c in cs]
    for i, v in m.items(): out[int(i[1:])]["covers"] = v
    return out
prop("C01", "lifecycle-framing", life + fault()[:3] + cov(ino_q[:1], c0=["batch", "pair", "overflow"]) + ino_t[:1] + [case(ROOT, n=3)], LB + "; " + FB + "; paths of up to 3 characters", "the callback's whole stream is compared with live, events, die")
prop("C02", "close-result", life + fault(), LB + "; " + FB, "close's answer is compared with what happened to the watcher; every execution ends")
prop("C03", "no-callback-after-close", life + fault()[:3] + [case(LIFE, preempt=2, mode=0, nev=1, budget=1), case(LIFE, T, preempt=3, mode=0, nev=1, budget=2)], LB, "after close or destruction the thread is gone and the callback is not entered")
prop("C04", "stop-priority", life, LB + "; a kernel which always has another event", "a stop request ends the watch however many events are waiting")
prop("C05", "fd-hygiene", life + [case(LIFE, preempt=2, mode=0, nev=1, budget=1)] + fault() + [case(WALK, n=2, unk=1)], LB + "; " + FB, "every descriptor and directory handle is closed once and none is inherited")
prop("C06", "error-reporting", fault() + [life[4]], FB, "each failed call is matched with what the callback was told")
prop("C07", "adapter-fallback", fault(), FB, "which kernel interface was opened is compared with what the system allows")
prop("C08", "wait-interrupt", fault(), FB, "an event delivered after interruptions and survivable failures reaches the callback")
prop("C09", "inotify-translate", cov(ino_e, c0=["batch", "silent"]) + ino_t, IB, "each record is compared with an independent account of inotify(7)")
prop("C10", "inotify-rename", cov(ino_e, c0=["pair", "pair-across-directories"]) + ino_m + ino_t, IB, "renames are paired by cookie, once, old name first")
prop("C11", "inotify-newdir", cov(ino_q, c2=["newdir", "newdir-watched", "newdir-failed", "subdirectory"]) + ino_t, IB, "directories which appear are watched with their contents before their event is delivered")
prop("C12", "inotify-anomalies", cov(ino_e, c0=["overflow", "phantom", "deleteself"]) + ino_t, IB, "overflow and unknown descriptors are reported exactly once each and nothing else is lost")
prop("C13", "inotify-batches", [case(BIG, fan=0, covers=["batch", "pair", "paths"]), case(BIG, fan=0, mode=2, covers=["nameless"])], "reads filling the whole buffer with names of 1 to 255 bytes or with 256 nameless records, followed by a read of 1 to 3 records; effects symbolic", "every record of a full buffer is delivered once, nothing stale is reread, no access leaves the buffers")
prop("C14", "fanotify-translate", cov(fan_q, c0=["batch"], c1=["self"], c2=["merged"]) + fan_t, FANB, "each record is compared with an independent account of fanotify(7)")
prop("C15", "fanotify-rename", cov(fan_q, c0=["pair", "pair-across-directories", "unlike"]) + fan_m + fan_t, FANB, "adjacent from/to records become one event, old name first")
prop("C16", "fanotify-newdir", cov(fan_q, c0=["newdir", "newdir-watched", "newdir-failed", "subdirectory"]) + fan_t, FANB, "directories which appear are watched with their contents before their event is delivered")
prop("C17", "fanotify-anomalies", cov(fan_q, c0=["overflow", "lost", "descriptor", "other-version", "other-information"]) + fan_t, FANB, "unusable records are reported and the rest of the batch is delivered")
prop("C18", "fanotify-batches", [case(BIG, fan=1, covers=["batch", "pair", "paths"]), case(BIG, fan=1, mode=1, covers=["paths"])], "reads filling the whole buffer with names of 1 to 255 bytes, a following read of 1 to 3 records, directory paths of 2 to 4095 bytes", "every record of a full buffer is delivered once, nothing stale is reread, no access leaves the buffers")
prop("C19", "walk-complete", [case(WALK, n=3, covers=["nested", "out-of-reach", "link", "unlistable"]), case(WALK, n=3, fan=1), case(WALK, n=2, unk=1, covers=["unknown-type"]), case(WALK, n=2, unk=1, fan=1), case(WALK, n=4, links=0), case(WALK, n=3, links=0, gone=1, unk=1, covers=["vanished"]), case(WALK, n=3, links=0, gone=1, fan=1), case(WALK, long=1, covers=["fits", "too-long"]), case(WALK, long=1, fan=1), case(WALK, deep=1, covers=["deep"]), case(WALK, deep=1, fan=1), case(WALK, T, n=3, unk=1), case(WALK, T, n=4), case(WALK, T, n=5, links=0, fan=1)], "every tree of up to 3 entries under the root, or 4 without links (4 with links, 5 without, in the thorough tier): directories, files, links out, links back, dangling links; unlistable directories; directories removed while they are walked; filesystems without entry types; chains of up to 12 directories when 3 may be open at once; paths around the longest possible", "the set of watched directories is compared with the set of reachable real directories")

TWO = H("h_two.cpp", tsan=True)
prop("C35", "root-forms", [case(ROOT, n=6, covers=["absolute", "relative", "inner"]), case(ROOT, n=6, fan=1, covers=["absolute", "relative", "inner"]), case(ROOT, T, n=8), case(ROOT, T, n=8, fan=1)], "paths of up to 6 (8) characters over '/', '.', 'w', 'l', 'a'; a tree of four directories and two links; one event", "what is watched and reported is compared with an independent resolution of the path")
prop("C36", "two-watchers", [case(TWO, preempt=2, covers=["goes-on"]), case(TWO, preempt=2, fan=1), case(TWO, preempt=1, pack=3), case(TWO, preempt=1, pack=3, fan=1), case(TWO, T, preempt=2, pack=2), case(TWO, T, preempt=2, pack=2, fan=1), case(TWO, preempt=1, sub=1, covers=["subdirectories"]), case(TWO, preempt=1, sub=1, fan=1), case(TWO, preempt=2, early=1), case(TWO, preempt=1, same=1, dtor=1), case(TWO, preempt=1, bad=1), case(TWO, preempt=1, budget=1, covers=["other-failed"]), case(TWO, preempt=1, budget=1, fan=1), case(TWO, preempt=1, budget=1, early=1), case(TWO, preempt=1, budget=1, bad=1), case(TWO, T, preempt=3), case(TWO, T, preempt=2, sub=1), case(TWO, T, preempt=2, sub=1, fan=1), case(TWO, T, preempt=2, budget=1), case(TWO, T, preempt=3, early=1, dtor=1)], "two watchers and their user; up to 2 (quick) or 3 (thorough) preemptions at system calls, locks and atomics; one failing call", "each watcher's stream and result are compared with what happened to it alone")
TREE = H("h_tree.cpp", tsan=True)
TR = dict(maxtimeouts=60)
def tree(pre=0, tiers=Q, **k): return [case(TREE, tiers, preempt=pre, fan=f, **k, **TR) for f in (0, 1)]
prop("C37", "tree-history", cov(tree(steps=3), c0=["left", "moved", "moved-in", "moved-out", "moved-with-contents", "rmdir", "unlink", "probed"], c1=["moved", "moved-in"]) + tree(steps=2, tree=3, names=3, selffirst=1) + tree(steps=2, tree=3, split=1) + tree(1, steps=2, tree=3, settled=0) + tree(1, steps=2, tree=2, settled=0, during=1) + tree(1, steps=3, settled=0, names=1)
     + tree(tiers=T, steps=3, tree=3, names=3) + tree(tiers=T, steps=4, structural=1) + tree(2, T, steps=2, settled=0) + tree(1, T, steps=3, settled=0) + tree(2, T, steps=2, settled=0, during=1, names=1),
     "histories of up to 3 (4) changes (create, modify, remove, rename within, out of and into the tree) from trees of 2 to 5 files; the watcher running after each change, or interleaved with them with 1 (2) preemptions at system calls, also while it starts; whole batches or one record at a time", "an independent inotify and fanotify answers the watcher; events are compared with the changes, and afterwards a file is created in every directory")
EVT = H("h_event.cpp"); CLI = H("h_cli.cpp", flags=["-ffp-contract=off", "-mlong-double-64", "-I@VERIF/harness/stubs_io", '-DCLI_SRC="@REPO/src/wtr/watcher/main.cpp"'])
LIBA = ["IR of the C++ library's inline code is executed, out-of-line functions are the models in model/"]
prop("C20", "event-equality", [case(EVT, mode=0, depth=2, plen=2, covers=["equal", "different"]), case(EVT, T, mode=0, depth=3, plen=3)], "paths of up to 2 (3) bytes, any bytes; every effect, type and time; up to 2 (3) nested associated events", "both equality operators are compared with a field-by-field account", LIBA)
prop("C24", "event-copy", [case(EVT, mode=1, depth=2, plen=2, covers=["associated"]), case(EVT, T, mode=1, depth=3, plen=3)], "paths of up to 2 (3) bytes, any bytes; every effect, type and time; up to 2 (3) nested associated events", "construction and copies are compared field by field, after the original is gone too", LIBA)
prop("C21", "event-strings", [case(EVT, mode=2), case(EVT, mode=5, covers=["streamed"])], "every effect and type, any value outside the enumerations, four string types, paths of up to 3 bytes", "names are compared with the documented ones", LIBA)
prop("C22", "event-json", [case(EVT, mode=4, plen=2, covers=["associated"]), case(EVT, mode=4, plen=1, aplen=2, types=6), case(EVT, mode=4, plen=0, aplen=0, types=6, akinds=1), case(EVT, T, mode=4, plen=3, aplen=2)], "paths of up to 2 (3) bytes and associated paths of up to 2, any non-zero bytes; every effect and type", "an independent JSON parser reads the text back", LIBA)
prop("C23", "time-string", [case(EVT, mode=3, bits=6, covers=["negative"]), case(EVT, T, mode=3, bits=9)], "nine windows of 64 (512) consecutive values around 0, 999, powers of ten, present times and both ends of the range, both signs", "the text is read back and compared, and its form checked", LIBA)
prop("C33", "cli-args", [case(CLI, mode=0, covers=["help", "no-such-path", "until-input", "timed", "saturated"])], "up to 3 arguments; 7 paths (absolute, relative, '.', a file, missing, -h, --help), all 20 units, 17 time texts from negative to beyond the largest", "what was watched, how long and the exit status are compared with the help text", KERNEL)
prop("C34", "cli-json", [case(CLI, mode=1, covers=["pair", "shown"])], "up to 2 inotify records: any of 5 changes, directory or file, names of 1-2 bytes, any bytes", "an independent JSON parser reads every line back", KERNEL)

CW = ["-I@REPO/watcher-c/include", '-DC_SRC="@REPO/watcher-c/src/watcher-c.cpp"']; CAPI = H("h_c.cpp", flags=CW); CAPIT = H("h_c.cpp", flags=CW, tsan=True)
prop("C25", "c-event", [case(CAPI, mode=0, warn=1, covers=["event", "pair", "warning"]), case(CAPI, mode=0, events=2, longer=1), case(CAPI, T, mode=0, events=3)], "every batch of up to 2 (3) inotify records: five changes or an overflow, directory or file, any names of 1-2 bytes, alone or after a long prefix; clocks near 0, 2^31, today and 2^63", "what the C callback receives is compared with an independent account of the records and the header's constants", KERNEL)
prop("C26", "c-close", [case(CAPIT, preempt=2, mode=1, wait=1, covers=["ended-well"]), case(CAPIT, preempt=2, mode=1, covers=["failed"]), case(CAPIT, preempt=2, mode=1, bad=1), case(CAPI, mode=1, wait=1, budget=2), case(CAPIT, T, preempt=4, mode=1), case(CAPIT, T, preempt=4, mode=1, wait=1), case(CAPI, T, mode=1, wait=1, budget=4)], "every interleaving with up to 2 (4) preemptions of opening and closing; every placement of up to 2 (4) failing calls; handles null, closed and never opened", "the answer of close is compared with what happened, and descriptors are counted", KERNEL)
NODE = H("h_node.cpp", flags=["-I/usr/include/node", "-I@REPO/watcher-c/include", '-DNODE_SRC="@REPO/watcher-nodejs/lib/watcher-napi.cpp"'], trees=("devel",))
NAPI = ["Node-API functions and the C library are played by the harness as documented; numbers are exact"]
prop("C27", "node-deliver", [case(NODE, mode=0, covers=["associated"]), case(NODE, mode=2, covers=["wrong-arguments", "long-path"]), case(NODE, mode=0, many=1030, covers=["many"]), case(NODE, mode=0, teardown=1)], "up to 2 events with any time, kinds and 1-2 byte paths, JavaScript running after each or not; 1030 events while JavaScript is busy; paths of 1 to 5000 bytes; 0 to 3 arguments", "what JavaScript's callback receives is compared with what the C library sent", NAPI)
prop("C28", "node-close", [case(NODE, mode=0, covers=["closed-well", "closed-badly"]), case(NODE, mode=0, teardown=1, covers=["engine-ended"])], "up to 2 events before or while closing, delivered or waiting, closing well or badly", "answers, references, queues and memory are compared before and after", NAPI)

import rs
RSA = ["the C library answers as its header says; futures' unbounded channel is replaced by a queue with its documented behaviour (harness/rs/futures), for its lock-free list exhausts the solver", "bindgen's output is derived from clang's account of watcher-c.h"]
SPECS["C31"] = dict(slug="rs-convert", run=rs.run, harnesses=["open_path", "kinds", "order", "assoc", "names"] + ["text%d" % i for i in range(8)], bounds="watched paths of up to 3 characters of any value; any time, effect and type numbers; paths and associated paths of up to 2 bytes of any value; up to 3 events read at any points", explain="Kani decides each harness over the real lib.rs", assumptions=RSA)
SPECS["C32"] = dict(slug="rs-close", run=rs.run, harnesses=["close"], bounds="closed explicitly 0, 1 or 2 times, then dropped; closing well or badly, with an event sent while closing or not", explain="Kani decides the harness over the real lib.rs", assumptions=RSA)

import pych
PYA = ["ctypes' entry points and the C library are played by the harness (harness/py)", "texts are chosen by the solver from a list of every single byte and pairs of 14 characteristic bytes, for CrossHair's own decoder does not follow undecodable bytes"]
SPECS["C29"] = dict(slug="py-event", run=pych.run, layout=True, harnesses=["event_numbers", "event_bytes", "event_order", "path_given", "refused", "json_text", "json_names"], bounds="any time; every effect and type; every path of one byte and 196 pairs of characteristic bytes; up to 4 events", explain="CrossHair explores every path of the real module under each harness function", assumptions=PYA)
SPECS["C30"] = dict(slug="py-close", run=pych.run, harnesses=["closes", "refused", "callback_kept"], bounds="closed explicitly, by a with block (ending well or by an exception) or by deletion, then up to 2 more times; closing well or badly", explain="CrossHair explores every path of the real module under each harness function", assumptions=PYA)

PDR = H("h_pdr.cpp", c=["@REPO/devel/src/portable-destructive-rename/main.c"], cflags=["-Dmain=pdr_main"], trees=("devel",))
prop("C38", "pdr-move", [case(PDR, covers=["help", "nothing-to-move", "moved", "moved-across", "failed"])], "up to 2 arguments out of 5; source and destination existing or not, one file or two, one filesystem or two; up to 2 failing calls with any of 7 errors", "what both names hold afterwards is compared with the exit status", ["the calls of POSIX answer as their manual pages say (harness/h_pdr.cpp)"])
DAR = H("h_darwin.cpp", flags=["-I@VERIF/harness/stubs_darwin"], tsan=True)
DARA = ["FSEvents, CoreFoundation and Dispatch behave as their documentation says (harness/h_darwin.cpp); the adapter is compiled with stand-in headers", "memory is sequentially consistent"]
prop("C39", "darwin-translate", [case(DAR, nb=1, ne=2, names=2, covers=["other", "create", "again", "destroy", "modify", "rename", "lacking"]), case(DAR, nb=1, ne=1, names=4), case(DAR, nb=2, ne=1, names=2), case(DAR, nb=1, ne=4, names=3, renames=1), case(DAR, nb=2, ne=2, names=3, renames=1),
     case(DAR, T, nb=1, ne=2, names=4), case(DAR, T, nb=1, ne=6, names=3, renames=1), case(DAR, T, nb=3, ne=2, names=2, renames=1)],
     "every batch of up to 2 records (any 32-bit flags saying at most one kind of path; 2 to 4 names), or 2 successive ones; up to 4 (6) renames of 3 names; any answer to whether a name exists", "each record is compared with an independent account of FSEvents' flags", DARA)
prop("C40", "darwin-close", [case(DAR, preempt=2, life=1, n=2, covers=["ran", "delivered"]), case(DAR, preempt=2, life=1, n=1, mode=1), case(DAR, preempt=2, life=1, early=1), case(DAR, preempt=1, life=1, fail=1, covers=["failed", "ran"]), case(DAR, T, preempt=4, life=1, n=2, covers=["delivered"]), case(DAR, T, preempt=3, life=1, n=3), case(DAR, T, preempt=4, life=1, early=1), case(DAR, T, preempt=3, life=1, fail=1)],
     "every interleaving of the user, the watching thread and the system's thread with up to 2 (4) preemptions; up to 2 (3) outstanding events; each call into the system failing", "the system's objects and what was outstanding are accounted for when close returns", DARA)
WIN = H("h_windows.cpp", flags=["-fshort-wchar", "-I@VERIF/harness/stubs_windows"], tsan=True)
WINA = ["the Win32 calls behave as their documentation says (harness/h_windows.cpp); the adapter is compiled with stand-in headers", "names are ASCII", "memory is sequentially consistent"]
prop("C41", "windows-translate", [case(WIN, nb=1, ne=2, covers=["batch", "pair", "plain", "other"]), case(WIN, nb=2, ne=1), case(WIN, nb=1, ne=3, short=1), case(WIN, nb=2, ne=2, short=1), case(WIN, nb=1, ne=4, short=1, renames=1), case(WIN, T, nb=1, ne=3), case(WIN, T, nb=2, ne=2), case(WIN, T, nb=1, ne=5, short=1, renames=1)],
     "every read of up to 2 (3; short names 5) records with any action and names of up to 2 characters, packed or padded, or 2 successive ones", "each record is compared with an independent account of what its action means", WINA)
prop("C42", "windows-close", [case(WIN, preempt=2, life=1, n=2, settled=1, covers=["ran", "delivered"]), case(WIN, preempt=3, life=1, n=1), case(WIN, preempt=3, life=1, early=1), case(WIN, preempt=2, life=1, n=2, over=1, settled=1, covers=["overflow", "broken", "failed"]), case(WIN, preempt=2, life=1, n=1, over=1), case(WIN, preempt=2, life=1, fail=1, covers=["failed", "ran"]), case(WIN, preempt=2, life=1, fail=1, n=2, settled=1), case(WIN, preempt=1, life=1, len=600), case(WIN, T, preempt=5, life=1, n=2, settled=1), case(WIN, T, preempt=5, life=1, n=1), case(WIN, T, preempt=5, life=1, early=1), case(WIN, T, preempt=4, life=1, n=3, over=1, settled=1), case(WIN, T, preempt=4, life=1, fail=1, n=2, settled=1)],
     "every interleaving of the user, the watching thread and the system's completions with up to 3 (5) preemptions; up to 2 (3) completions each good, overflown or failed; each call into the system failing; a path longer than 512 bytes", "the handles, the pending read and what completed are accounted for when close returns", WINA)
WINC = H("h_winc.cpp", flags=["-fshort-wchar", "-I@VERIF/harness/stubs_winc"] + CW, trees=("single",))
prop("C43", "windows-names", [case(WINC, n=3, covers=["one", "two", "three", "pair", "alone"]), case(WINC, n=2, pair=1, covers=["associated"]), case(WINC, big=1), case(WINC, big=2, n=1), case(WINC, T, n=4), case(WINC, T, n=3, pair=1)],
     "every name of up to 3 (4) 16-bit units, with an associated one of up to 2 (3) or none; names of 4094 to 4097 and 9000 units ending in any two", "the text given to the user is compared with an independent UTF-8 encoder", ["WideCharToMultiByte behaves as its documentation says (harness/h_winc.cpp); the C++ watcher is stood in for, its paths being narrow here"])
SCAN = H("h_warthog.cpp", tsan=True)
SCANA = ["<filesystem>'s iterators, types and times behave as their documentation says (harness/h_warthog.cpp), without links", "every write changes a file's time", "memory is sequentially consistent"]
prop("C44", "scan-translate", [case(SCAN, looks=2, nodes=4, covers=["create", "modify", "destroy", "below", "file", "directory", "removed"]), case(SCAN, looks=1, nodes=5, changes=2), case(SCAN, looks=2, nodes=4, unlist=1, covers=["unlistable"]), case(SCAN, looks=2, nodes=4, mid=1, covers=["meanwhile"]), case(SCAN, T, looks=3, nodes=4), case(SCAN, T, looks=2, nodes=5, changes=2), case(SCAN, T, looks=2, nodes=4, mid=1, unlist=1), case(SCAN, T, looks=2, nodes=3, mid=2)],
     "every tree of up to 3 (4) names in two levels, each absent, a file or a directory, readable or not; up to 2 (3) looks with up to 2 changes before each and 1 (2) during it, at any call", "what was told is compared with the difference of what is there at one look and the next; with changes during a look, what was told must agree with what is there two looks later", SCANA)
prop("C45", "scan-lifecycle", [case(SCAN, looks=2, nodes=4, mid=1, covers=["meanwhile", "vanished"]), case(SCAN, preempt=3, looks=1, nodes=2, early=1), case(SCAN, preempt=2, looks=1, nodes=2), case(SCAN, looks=2, nodes=4, root=1, covers=["rootgone", "ended"]), case(SCAN, looks=2, nodes=4, denied=1, covers=["denied"]), case(SCAN, T, preempt=5, looks=1, nodes=2, early=1), case(SCAN, T, preempt=4, looks=1, nodes=2), case(SCAN, T, looks=2, nodes=3, mid=2)],
     "as in C44, and every interleaving of the user and the watching thread with up to 3 (5) preemptions; the watched directory itself removed between two looks", "the messages, the result and the threads left over are compared with what was done", SCANA)
