#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list lives here so that it is readable and reviewable."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))

CACHE = ["v2/xcache.go", "xcache.go"]
M = lambda n, w: dict(name=n, where=w)
S = lambda n, m, w: dict(name=n, meaning=m, where=w)

prop("C01", "XCache operations are atomic under any concurrent use",
 "However many threads share one cache, the results of their Set, Get, Del, Count, SetTTL, Clean, Verify and Flush calls are those of some one-at-a-time execution that respects real-time order: a Get returns exactly the value of the latest Set of that key that has not been deleted, flushed, evicted, expired or rejected, and otherwise nothing. "
 "A completed Set is never lost, undone or overwritten by an older value because of what other threads were doing, and a removed entry never comes back by itself. "
 "This holds for the cache of both module versions.",
 ["schedules", "histories", "configurations"],
 "every interleaving of any number of client threads, every sequence of operations per thread, every Maxitems/Expire/Validator configuration, with time passing at any point",
 "The tests drive one cache from one goroutine with three keys; no test starts a second goroutine, so no interleaving at all is sampled.",
 CACHE, [M("mutex around map and order list", "v2/xcache.go Set/Get/Del/Count/Clean/Flush"), M("re-check that the judged entry is still the stored one before touching or removing it", "v2/xcache.go Get")],
 [S("items", "key to entry map", "v2/xcache.go XCache"), S("pile", "keys in order of last use", "v2/xcache.go XCache")],
 ["return values of the public XCache methods"])

prop("C02", "XCache never holds more entries than its maximum",
 "A cache created with a positive maximum number of items never reports, at any moment that any thread can observe, more entries than that maximum, whatever the maximum is and however many threads insert. "
 "A cache created without a maximum (0) never discards an entry because of quantity. "
 "The value just stored by a Set is itself never the victim of the cleaning that this Set triggers.",
 ["schedules", "histories", "configurations"],
 "every maximum from 1 up, every insertion/replacement/read/expiry history, every interleaving of inserting and counting threads",
 "One test uses Maxitems=110 with 100 insertions, so the limit is never reached, and from one goroutine only.",
 CACHE, [M("cleaning inside Set when the limit is reached", "v2/xcache.go Set, mClean; xcache.go Set, Clean")],
 [S("Maxitems", "configured limit", "XCache")], ["Count()", "Get() after eviction"])

prop("C03", "XCache discards least recently used entries first, as many as asked",
 "When the cache cleans itself because it is full, and when Clean(p) is called, the entries discarded are first the expired ones and then the least recently used ones (use = Set or successful Get), never an entry used more recently than one that is kept. "
 "Clean(p) discards p percent (rounded down) of the unexpired entries and returns the number of entries it removed, expired ones included; automatic cleaning happens only when the limit is reached and discards 10 percent (rounded down) of the unexpired entries, more only if the limit would otherwise be exceeded. "
 "This stays true after any mixture of deletions, flushes, expiries, rejections and concurrent reads.",
 ["histories", "schedules", "configurations"],
 "every history of operations before the cleaning, every percentage 0..100, every limit, every interleaving of readers and writers",
 "The only Clean test checks the count after one Clean(30) of an untouched cache; which entries went, and any history with Get/Del/Flush/expiry before it, is never observed.",
 CACHE, [M("order list kept in step with the map", "v2/xcache.go removeFromPile, Get, mClean, Flush")],
 [S("pile", "keys in order of last use", "XCache")], ["Clean() result", "Count()", "which keys Get() still finds"])

prop("C04", "XCache never serves an expired entry and never expires a live one",
 "A Get that starts once an entry has outlived its own TTL (counted from the Set that stored it) or the cache-wide expiration returns (nil, true), reports this once and removes the entry; a Get that ends before that moment finds it. "
 "A new Set of the key starts a new life with no TTL, SetTTL never affects any other entry and never revives a removed one, and Clean and Verify remove exactly the entries that have outlived their TTL or expiration on top of what else they remove. "
 "The decision follows elapsed time: wall-clock steps forward or backward change nothing.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every placement of clock advances, stalls and wall-clock steps relative to the steps of every operation, every combination of TTL and expiration, every interleaving",
 "One test sleeps two real seconds past a one second expiration; TTLs are never tested, nor times near the limit, nor a clock that moves during a call or steps.",
 CACHE, [M("ctime+ttl and ctime+Expire compared with now", "v2/xcache.go Get, mClean"), M("Go monotonic clock readings in time.Time", "time.Now in v2/xcache.go Set/Get")],
 [S("ctime", "creation time of the entry", "XCacheEntry"), S("ttl", "own lifetime of the entry", "XCacheEntry"), S("Expire", "lifetime for all entries", "XCache")],
 ["Get() result pair", "Count()", "Clean()/Verify() results"], "simulated clock for time.Now")

prop("C05", "XCache obeys its Validator, and drops only the entry that was judged",
 "With a Validator set, every Get of a present unexpired entry asks it about exactly that key and that entry's creation time; a value is returned only if it answered true, and if it answered false the Get returns (nil, true) and that entry is gone. "
 "Verify asks about every entry, removes all and only the rejected (and expired) ones and returns how many it removed. "
 "A rejection never removes a newer value stored for the same key while the Validator was running.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of validator runs (arbitrarily slow, flipping, calling back into the cache) with sets, deletes, reads and cleanings by other threads",
 "No test sets a Validator and no test calls Verify.",
 CACHE, [M("validator consulted outside the lock, entry re-checked before removal", "v2/xcache.go Get, Verify")],
 [S("Validator", "user function deciding validity", "XCache")], ["Validator arguments and calls", "Get()/Verify() results", "Count()"])

prop("C06", "XCache is free of data races, deadlocks and crashes for any shared use",
 "For every interleaving of cache operations on a shared cache there is no data race in the sense of the Go memory model, no runtime fault, and every operation returns once the Validator calls it makes return. "
 "A Validator may be slow, may itself call any operation of the same cache, and may panic: the panic reaches only the caller that triggered it, and every later operation by any thread works normally and sees a consistent cache.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving down to single memory accesses, every point at which a validator panics, stalls or re-enters, logging on or off",
 "All tests are single-goroutine, none uses a Validator, and the suite is not run under the race detector.",
 CACHE, [M("RWMutex with deferred unlocks", "v2/xcache.go"), M("no lock held while the Validator runs", "v2/xcache.go Get, Verify")],
 [], ["happens-before relation of accesses", "progress of every task"], "every shared access and lock operation is a scheduling point")

prop("C07", "XCache forgets what it no longer holds",
 "Once an entry is deleted, flushed, evicted, expired-and-reported or rejected, the cache keeps no reference to its value, and the bookkeeping it keeps per key stays proportional to the number of entries it currently holds, however long and however concurrent its history was. "
 "In particular a flushed or emptied cache holds on to nothing, and such leftovers never influence later operations.",
 ["histories", "schedules"],
 "every operation history of any length and every interleaving, observed at quiescent points",
 "Tests look only at Count(), which is computed from the map alone, and never at what else stays referenced.",
 CACHE, [M("order list shrinks with the map", "v2/xcache.go removeFromPile, mClean, Flush")],
 [S("pile", "keys in order of last use", "XCache")], ["objects reachable from the cache"])

prop("C08", "XLanguage is an atomic, race-free table under any concurrent use",
 "However many threads share one v2 language table, its reads and writes (entries, statuses, name, language, deletions, loads) behave as if executed one at a time in some order respecting real time, with no data race and no deadlock. "
 "A load of any format becomes visible as a whole: GetEntries, GetXML, String and GoString return the table as it was at one instant, never a half-loaded one. "
 "The map returned by GetEntries is a private copy: changing it never changes the table, nor the reverse.",
 ["schedules", "histories"],
 "every interleaving of any number of reader, writer and loader threads",
 "Tests use one goroutine and read a few keys after loading.",
 ["v2/xlanguage.go"], [M("RWMutex", "v2/xlanguage.go all methods"), M("one critical section per load", "v2/xlanguage.go LoadString, LoadXMLString")],
 [S("entries/status/Name/Language", "the table", "XLanguage")], ["results of all getters and printers"])

prop("C09", "Loading a language is all-or-nothing whatever goes wrong",
 "Loading a language from a file or a string, text or XML, either returns no error, and then every entry of the whole source is in the table and entries not mentioned keep their value, or returns an error, and then the table (entries, statuses, name, language) is exactly what it was before and a constructor returns nil. "
 "Errors opening or reading the file at any offset, short reads, truncated or torn content and oversized lines are all covered; a read that fails half way is never reported as success. "
 "This holds in both module versions.",
 ["fault_sequences", "crash_points", "inputs"],
 "every I/O fault at every offset (open, read, close errors, short reads), every truncation point of the content, repeated loads into the same table",
 "Tests load three intact files from a healthy disk and never make a load fail.",
 ["v2/xlanguage.go", "xlanguage.go"], [M("read completely, parse completely, then apply", "LoadFile, LoadXMLFile, LoadString, LoadXMLString")],
 [], ["error result", "GetEntries/GetStatus/GetName/GetLanguage before and after"], "simulated file system for os.Open/ioutil.ReadFile")

prop("C10", "XDatasetTS is an atomic, race-free dataset under any concurrent use",
 "However many threads share one thread-safe dataset, Set, Del, every Get* reader, String, GoString and Clone behave as if executed one at a time in some order respecting real time, exactly as the same sequence would on the plain dataset it wraps, with no data race and no deadlock. "
 "Reads by path through nested thread-safe datasets and collections are race-free too and only ever return values that were stored there.",
 ["schedules", "histories"],
 "every interleaving of reader and writer threads, every accessor, values of every supported type, nested structures",
 "The TS tests repeat the plain dataset tests on one goroutine.",
 ["v2/xdatasetts.go", "v2/xdataset.go"], [M("RWMutex around every delegated call", "v2/xdatasetts.go")], [S("data", "wrapped dataset", "XDatasetTS")], ["results of all accessors"])

prop("C11", "XDatasetCollectionTS is an atomic, race-free double-ended list",
 "However many threads share one thread-safe collection, Push, Pop, Shift, Unshift, Count, Get, GetData and its typed forms, GetCollection, String, GoString and Clone behave as if executed one at a time in some order respecting real time, exactly as on the plain collection: no element is lost, duplicated or reordered, and a key search returns the match of the last element that has it at one instant. "
 "There is no data race, no deadlock, and no reader ever fails because another thread is removing elements.",
 ["schedules", "histories"],
 "every interleaving of producers, consumers and readers, collections of any length including empty",
 "The file's two tests do not touch XDatasetCollectionTS at all.",
 ["v2/xdatasetcollectionts.go", "v2/xdatasetcollection.go"], [M("RWMutex around slice operations", "v2/xdatasetcollectionts.go")], [S("data", "slice of datasets", "XDatasetCollectionTS")], ["results of all methods"])

prop("C12", "A panic in one thread never wedges a thread-safe dataset or collection",
 "If an operation on a thread-safe dataset or collection panics (because a user-supplied dataset in it panics in any of its methods, or because an element is removed from an empty collection), the panic reaches only that caller. "
 "Every other operation by every thread, before, during and after, completes and sees the contents as if the panicking call had either taken effect or not; no lock stays held.",
 ["fault_sequences", "schedules"],
 "every method of a wrapped or contained dataset as panic point, every interleaving with other threads",
 "No test injects a panic; the changelog only promises deferred unlocks for XCache and XLanguage.",
 ["v2/xdatasetts.go", "v2/xdatasetcollectionts.go"], [M("deferred unlocks", "v2/xdatasetts.go, v2/xdatasetcollectionts.go")], [], ["progress of every task after the panic", "contents afterwards"])

prop("C13", "Cloned datasets and collections are independent point-in-time copies",
 "Clone of a dataset or collection, plain or thread-safe, returns a deep copy: itself and each nested dataset and collection, to any depth, equals its original counterpart as it was at one instant between call and return, even while other threads write to the originals through their thread-safe interface. "
 "From then on no change to the original, to its nested datasets or collections, or to the copy's, made by any thread, is visible in the other, and using both at once is free of data races.",
 ["schedules", "histories", "inputs"],
 "every shape of nesting, every interleaving of cloning with writers, every sequence of later changes on either side",
 "Tests clone one small structure on one goroutine and change one nested value.",
 ["v2/xdataset.go", "v2/xdatasetts.go", "v2/xdatasetcollection.go", "v2/xdatasetcollectionts.go", "xdataset.go"], [M("recursive Clone under the read lock", "Clone methods")], [], ["deep contents of both sides"])

prop("C14", "Reading a plain dataset or collection never writes to it",
 "Every reading method of the plain dataset and collection (all Get* forms by key or path, Count, String, GoString, Clone), and a collection lookup, leaves them untouched, so any number of threads may read the same nested structure at the same time without a data race and each gets the answer it would get alone. "
 "This holds in both module versions.",
 ["schedules", "inputs"],
 "every set of concurrent readers, every accessor, every nesting and path",
 "Tests never read from two goroutines.",
 ["v2/xdataset.go", "v2/xdatasetcollection.go", "xdataset.go"], [M("readers only read the map and slice", "Get*, String, Clone")], [], ["happens-before relation of accesses", "results", "contents afterwards"])

prop("C15", "One template can be executed by many threads at once",
 "Any number of threads may Execute the same compiled template (and its sub-templates and clones) at the same time, with private or shared data: there is no data race, no deadlock, and each call returns exactly the text it would return if it ran alone. "
 "Executing leaves the template, the language table and the injected data exactly as they were. "
 "This holds in both module versions.",
 ["schedules", "inputs", "programs"],
 "every interleaving of executing threads, every template built from the metalanguage (fields, languages, references, loops with their variants, conditions, dumps, nesting) and every data shape",
 "Every template test executes once, on one goroutine, and looks only at the text.",
 ["v2/xtemplate.go", "xtemplate.go"], [M("execution only reads template and data", "v2/xtemplate.go injector")], [S("Root/SubTemplates/Father", "compiled template", "XTemplate")], ["returned text", "deep contents of template and data before/after"])

prop("C16", "A cloned template and its original never affect each other",
 "Cloning a template, even while other threads execute or clone the same one, is free of data races and leaves the original exactly as it was; the clone produces the same text as the original for the same data. "
 "Whatever is done afterwards to either one or its sub-templates (adding or replacing sub-templates, reloading, editing parsed parts, cloning again) never changes what the other, or any sub-template of the other, produces.",
 ["schedules", "histories", "programs"],
 "every template shape with nested and inherited sub-templates, every interleaving of Clone/Execute/modify, chains of clones",
 "One test compares the text of one template and its clone; nothing is modified and nothing runs concurrently.",
 ["v2/xtemplate.go"], [M("deep copy with parent links inside the copy", "v2/xtemplate.go Clone")], [S("Father", "parent link used for lookup", "XTemplate")], ["returned text of both", "reachability between the two"])

prop("C17", "Loading a template is all-or-nothing whatever goes wrong",
 "Loading a template from a file or a string either returns no error and the template then renders the complete source, or returns an error and the template renders exactly what it rendered before (a constructor returns nil). "
 "Errors opening or reading the file at any offset, short reads, and truncated or torn content with unbalanced sub-templates are all covered; a read that fails half way is never reported as success. "
 "This holds in both module versions.",
 ["fault_sequences", "crash_points", "inputs"],
 "every I/O fault at every offset, every truncation point, repeated reloads into the same template object",
 "Tests load intact files; the one error test only checks that a constructor returns nil.",
 ["v2/xtemplate.go", "xtemplate.go"], [M("read completely, compile completely, then install", "LoadFile, LoadString, compile")], [], ["error result", "rendered text before and after"], "simulated file system for os.Open")

prop("C18", "Rendering shared live data never crashes and never mixes up values",
 "Executing a template over thread-safe datasets, collections and language tables that other threads keep changing never panics, deadlocks or races, always returns, and every value it prints for a field is one that field actually held at some instant during the call. "
 "A loop prints each position it visits once, in order, numbered 1,2,3..., using elements that were in the collection during the call.",
 ["schedules", "histories"],
 "every interleaving of rendering with Set/Del/Push/Pop/Shift/Unshift/Set on the data and language being rendered",
 "No test changes data during Execute, and none uses a thread-safe structure in a template.",
 ["v2/xtemplate.go", "v2/xdatasetts.go", "v2/xdatasetcollectionts.go", "v2/xlanguage.go"], [M("locks of the TS structures", "v2/xdatasetts.go, v2/xdatasetcollectionts.go"), M("re-check of each element fetched in a loop", "v2/xtemplate.go injector")], [], ["returned text against the history of values"])

prop("C19", "Printed forms depend only on the contents",
 "String, GoString and GetXML of datasets, collections and language tables, and the text produced by Execute including dumps, are a function of the contents alone: the randomised iteration order of maps, the insertion order of keys and earlier deletions never change them. "
 "This holds in both module versions.",
 ["schedules", "histories"],
 "every iteration order the runtime may choose at every iteration, every insertion/deletion history leading to the same contents",
 "Tests print a few fixed values once per run; the order the runtime happened to choose in that run is all they sample, and GetXML is never compared.",
 ["v2/xdataset.go", "v2/xlanguage.go", "v2/xtemplate.go", "xdataset.go", "xlanguage.go"], [M("keys sorted before printing", "String/GoString/GetXML")], [], ["printed text"], "simulated map iteration order")

prop("C20", "Loading never leaks an open file",
 "When any file-loading call or constructor of languages and templates returns, successfully or with an error from any cause, every file it opened has been closed exactly once. "
 "This holds in both module versions.",
 ["fault_sequences", "inputs"],
 "every I/O fault at every step of the load, every content",
 "Tests load intact files from a healthy disk and never look at open descriptors.",
 ["v2/xlanguage.go", "v2/xtemplate.go", "xlanguage.go", "xtemplate.go"], [M("Close on every path", "LoadFile, LoadXMLFile")], [], ["open handles of the simulated file system"], "simulated file system for os.Open")

prop("C21", "Objects that share nothing never influence each other",
 "Threads that each create and use objects of their own (caches, languages, datasets, collections, templates), of the same or of different kinds, with the same names, keys, file names or sources, never race with each other, and each object answers exactly as it would in a program that uses nothing else. "
 "This also holds one after the other: what an earlier object did, loaded or printed never changes what a later one does. "
 "This holds in both module versions.",
 ["schedules", "histories"],
 "every set of programs over private objects, every interleaving of them, every history of earlier objects in the same process",
 "Tests use one object at a time on one goroutine and never compare with a fresh process.",
 ["v2/xtemplate.go", "v2/xlanguage.go", "v2/xcache.go", "v2/xdataset.go", "xtemplate.go", "xlanguage.go", "xcache.go", "xdataset.go"],
 [M("no package-level mutable state besides the log switch", "both modules")], [], ["results of all operations", "happens-before relation of accesses"])

prop("C22", "Reading a language table never writes to it",
 "Every reading method of a language table (entries, statuses, name, language and all printed forms) leaves it untouched, so any number of threads may read the same table at the same time without a data race, also in the first module version that has no lock, and each gets the answer it would get alone.",
 ["schedules", "inputs"],
 "every set of concurrent readers, every reading method, present and missing entries, tables loaded from every format",
 "Tests never read from two goroutines.",
 ["xlanguage.go", "v2/xlanguage.go"], [M("readers only read the map", "Get, String, GoString, GetXML")], [], ["happens-before relation of accesses", "results", "contents afterwards"])

prop("C23", "Building a dataset from ordinary maps leaves them alone and independent",
 "In the second module version, building a dataset or a collection from ordinary maps, lists of maps and mixed lists changes nothing in them, so any number of threads may build from the same source at the same time without a data race and each gets the same contents. "
 "Afterwards no change to any of the source's nested maps, lists of maps and mixed lists shows in a dataset built from it, no change to a built dataset or to a dataset or collection inside it shows in the source, and no change to one built dataset shows in another one. "
 "Any other value (a number, a list of strings) is taken over as it is.",
 ["schedules", "inputs", "histories"],
 "every nesting of maps, lists of maps and mixed lists, every number of building threads, every later change to source or result at any depth",
 "One test builds one dataset from one literal and reads it back; the source is never looked at again, and nothing is built twice or changed afterwards.",
 ["v2/xdataset.go", "v2/xdatasetcollection.go"], [M("every nested map and list is rebuilt as a new dataset or collection", "v2/xdataset.go NewXDataset, v2/xdatasetcollection.go NewXDatasetCollection")], [], ["contents of source and results", "happens-before relation of accesses"])

prop("C24", "A render that fails changes nothing",
 "When a dataset or collection supplied by the user of the library panics while a template is executed with it, the panic reaches the caller of that execution and nobody else. "
 "The template, its sub-templates, the language and the data are exactly as they were before, no lock stays held, and every other execution, at the same time or later, returns exactly the text it would have returned without the failure. "
 "This holds in both module versions.",
 ["fault_sequences", "schedules", "inputs"],
 "every failing call of every user-supplied part at any depth, every template, any number of executions before, during and after",
 "No test supplies a dataset of its own, let alone one that fails half way through a render.",
 ["v2/xtemplate.go", "xtemplate.go"], [M("execution keeps its state in its own buffers and overlays and puts nothing into template or data that has to be taken out again", "v2/xtemplate.go injector; xtemplate.go injector")], [], ["text returned by Execute", "contents of data afterwards", "panics seen by callers"], "user-supplied dataset types that fail on decision of the seed")

# ---- pure functions: not a simulation target
prop("N01", "Template metalanguage produces the documented text",
 "Comments, fields, paths, language entries, references, loops with their .none/.first/.last/.even/.key variants, conditions and scope rules render as documented for every template and data set.",
 ["inputs", "programs"], "every template and every data set", "Tests sample about ten templates.",
 ["v2/xtemplate.go", "xtemplate.go"], [M("compile and injector", "v2/xtemplate.go")])
prop("N02", "Typed getters convert values as documented",
 "GetString/GetInt/GetFloat/GetBool/GetTime and the collection getters convert every supported type as documented and report failure otherwise.",
 ["inputs"], "every value of every Go type", "Tests cover each type with one value.", ["v2/xdataset.go", "xdataset.go"], [M("type switches", "Get*")])
prop("N03", "Paths resolve through nested datasets and collections",
 "A key of the form id>id>id resolves through nested datasets and collection indexes, and a missing step is reported as not found, never as a panic.",
 ["inputs"], "every path and every nesting", "Tests follow a few fixed paths.", ["v2/xdataset.go", "xdataset.go"], [M("Get", "XDataset.Get")])
prop("N04", "A language written as XML reads back identically",
 "Loading the output of GetXML gives the same name, language, entries and statuses for every content, including markup characters.",
 ["inputs"], "every string as name, id, value and status", "GetXML is printed in a test but never compared or reloaded.", ["v2/xlanguage.go"], [M("GetXML/LoadXMLString", "v2/xlanguage.go")])
prop("N05", "The text language format is parsed as documented",
 "id=value lines, comments, blank lines, missing keys and spaces are interpreted as documented for every input text.",
 ["inputs"], "every input text", "Tests parse one three-line file.", ["v2/xlanguage.go", "xlanguage.go"], [M("LoadString", "xlanguage.go")])
prop("N06", "Nested Go maps become nested datasets without loss",
 "NewXDataset and NewXDatasetCollection turn any nested map/slice structure into datasets and collections holding the same data.",
 ["inputs"], "every nested map", "Tests convert one structure.", ["v2/xdataset.go", "v2/xdatasetcollection.go"], [M("NewXDataset", "v2/xdataset.go")])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
