#!/usr/bin/env python3
# Generates properties.jsonl (kept so that the list is easy to review and edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
HTTP="pkg/service/http.go"; JA="pkg/output/json_array.go"; JO="pkg/output/json_object.go"; JC="pkg/output/json_common.go"
CSV="pkg/input/csv.go"; JSON="pkg/input/json.go"; XML="pkg/input/xml.go"
p("C01","Concurrent requests get exactly the answer the data files define",
 "Whatever set of clients queries the service at the same time, and however their requests interleave, every successful response contains exactly the records, in order and with every field value, that the data files and the configuration define for that request. No response ever contains data that belongs to another request, a mixture of records, or a stale or partial record.",
 ["schedules","inputs","histories"],"all interleavings of any number of concurrent requests over all routes, for every CSV, JSON-lines or XML input, parser and index configuration",
 "Unit tests issue one call at a time against one small file; nothing in the suite ever runs two requests at once.",
 [CSV,JSON,XML,JC,JA,JO,HTTP,"pkg/parser/string.go","pkg/input/xml_record.go"],
 [("per-input reader lock","readerLock in pkg/input/*.go"),("private file handle per full scan","IterateAll in pkg/input/*.go")],
 ["HTTP responses of the running service"])
p("C02","An index lookup returns exactly the matching records, once each, in file order",
 "For every index type (none, map, sqlite, wildcard, fts5) a filtered request selects exactly the records whose indexed property matches the filter - equality under the configured collation, substring, or full-text match - each once and in file order, and several filters select exactly the records matching all of them, whether they use one index or several. This holds while other lookups are in progress on the same index and regardless of whether the index was just built or loaded from disk.",
 ["inputs","schedules","configurations"],"all data sets, filter combinations, index configurations and interleavings of lookups, fresh and reloaded indexes",
 "Tests look up a handful of values in a few-row data set, sequentially; no test crosses the wildcard index's write buffer or combines indexes under load.",
 ["pkg/index/noop.go","pkg/index/map.go","pkg/index/sqlite.go","pkg/index/wildcard.go","pkg/index/wildcard/node.go","pkg/index/wildcard/position.go","pkg/index/wildcard/stream.go","pkg/index/fts5.go","pkg/input/record/join.go"],
 [("position iterators joined in order","pkg/input/record/join.go"),("on-disk suffix tree","pkg/index/wildcard/node.go")],["HTTP responses of filtered requests"])
p("C03","A record reads the same at any time and after any access history",
 "Reading one record of an input yields exactly what a scan of that input from the start yields for that record: all its fields, never a neighbouring or truncated record. This does not depend on which records were read before, in which order, whether earlier reads failed, or on scans running at the same time.",
 ["histories","schedules","inputs"],"all sequences and interleavings of single-record reads, and full scans, for every CSV, JSON-lines and XML file",
 "Tests read one or two positions once, from a fresh input; state kept between reads (buffers, parser state, file offset) is never exercised.",
 [CSV,JSON,XML,"pkg/util/bufio.go","pkg/input/xml_record.go"],
 [("seek and buffer reset","pkg/util/bufio.go"),("readerLock","pkg/input/*.go")],["records in HTTP responses"])
p("C04","A crash while building an index never leads to wrong answers later",
 "If the process is killed or the machine loses power at any moment while a persistent index (sqlite, fts5, wildcard) is being built, or right after, then the next start on the same files either refuses to start with an error or serves answers identical to those of an index built without interruption. It never serves from a partially built or damaged index.",
 ["crash_points","fault_sequences","schedules"],"all crash points between the first byte of the index written and the end of the run; process kill (with a torn last write) and power loss (any subset of unsynced writes lost)",
 "No test crashes anything; the durability order of index writes against the completed flag cannot be observed by a unit test on a real file system.",
 ["pkg/index/wildcard.go","pkg/index/wildcard/metadata.go","pkg/index/wildcard/stream.go","pkg/index/sqlite.go","pkg/index/fts5.go","pkg/index/sqlite/metadata.go","pkg/index/sqlite/open.go"],
 [("completed flag in index metadata","pkg/index/wildcard/metadata.go, pkg/index/sqlite/metadata.go"),("flush before completing","pkg/index/wildcard.go createIndex")],["exit status and HTTP responses after restart"])
p("C05","Restarting on an existing index gives the same answers and does not touch it",
 "When rodb is stopped and started again with the same configuration and unchanged data files, it reuses the existing index files: it starts without error, answers every request exactly as before the restart, and leaves the contents of the index files unchanged, for any number of restarts and whether the stop was graceful or a kill after the build had finished.",
 ["histories","configurations","crash_points"],"all histories of starts and stops, all index configurations, including several indexes in one sqlite file",
 "Tests rebuild indexes from scratch in almost every case, and never compare answers before and after a restart.",
 ["pkg/index/wildcard.go","pkg/index/sqlite.go","pkg/index/fts5.go","pkg/index/wildcard/metadata.go","pkg/index/sqlite/metadata.go"],
 [("metadata load and validation","LoadMetadata, AssertValid")],["HTTP responses across restarts","bytes of the index files"])
p("C06","An index that does not belong to the current data or configuration is refused",
 "If, since an index was built, the input file's modification time (to the second, in either direction) or size has changed, or the index's configuration has changed (its set of properties; ignoreCase for wildcard, a property's collate for sqlite, tokenize for fts5), or the file is no index of that type and version at all, then the next start fails with an error and serves nothing, it does not panic; after other configuration changes (order of the properties, prefix) it either does that or answers as now configured; if the index build never completed, the next start either fails with an error or builds the index again. Once data and configuration are again what the index was built from, the next start accepts it. This holds at every point of a history of edits, configuration changes, crashes and restarts.",
 ["histories","configurations","crash_points"],"all histories of data edits, clock positions, configuration changes and restarts",
 "Tests cover each metadata check once with a mock input; they do not cover real files changed while the service is down or being built.",
 ["pkg/index/wildcard/metadata.go","pkg/index/sqlite/metadata.go","pkg/index/wildcard.go","pkg/index/sqlite.go","pkg/index/fts5.go"],
 [("AssertValid","pkg/index/*/metadata.go")],["exit status after restart"])
p("C07","A data file modified while running is noticed as configured",
 "When an input file is written to by another process while the service runs, or another file is renamed over it, the service stops with a non-zero status within bounded time if dieOnInputChange is true (the default), at whatever moment of start-up or serving this happens; if it is false the service keeps serving. It never stops because of events that did not modify an input's content. A file that is removed and later created again, which no event of the watched file reveals, is never combined with the former one: every answer is that of one of them, or an error.",
 ["schedules","histories","configurations"],"all moments of modification relative to start-up, indexing and serving, all event sequences, both settings",
 "One test writes once to a watched file and uses real timing; start-up windows and other event kinds are never scheduled.",
 ["pkg/util/fsnotify.go",CSV,JSON,XML],[("file watcher goroutine","pkg/util/fsnotify.go"),("watcher.Add at start-up","NewCsv/NewJson/NewXml")],["exit status","HTTP responses after the event"])
p("C08","Graceful shutdown finishes requests in flight",
 "After an interrupt the service stops accepting new work, every request whose handling had begun still receives its complete correct response, and the process then exits with status 0 within bounded time once those requests are finished. It neither exits before they are answered nor hangs while no request is in flight; only clients that stall for at least 30 seconds are cut off.",
 ["schedules","histories"],"all moments of the interrupt relative to connection and request life cycles, any number of services",
 "Tests close the service when nothing is in flight; the race between shutdown and running handlers is never scheduled.",
 [HTTP,"pkg/service/service.go","cmd/main.go"],[("Shutdown then Wait","Http.Close, service.Wait")],["HTTP responses","exit status"])
p("C09","Serving requests does not leak file handles or connections",
 "However many requests are served - successful, not found, failing, with or without pagination, or abandoned by the client - the number of open file handles stays bounded by a constant that does not grow with the number of requests served, once they have finished.",
 ["histories","fault_sequences","inputs"],"all sequences of requests, including limited scans, first-match lookups, client aborts and injected I/O errors",
 "Tests never count handles, and garbage collection hides leaks in short runs.",
 ["pkg/index/noop.go","pkg/index/sqlite.go","pkg/index/fts5.go",CSV,JSON,XML],[("closing scan iterators","end() of IterateAll"),("closing result rows","GetRecordPositions")],["open handles of the simulated file system"])
p("C10","An I/O error never turns into a wrong or truncated successful answer",
 "When reading a data file or an index fails (I/O error, failed open, no more handles) or returns fewer bytes than asked, at any read, the affected request gets an error response, or the correct complete answer - never a successful response with missing, truncated or wrong data. Requests not affected by the fault are answered correctly.",
 ["fault_sequences","schedules"],"all placements of read, seek, open and short-read faults in any request history",
 "No test injects an I/O error.",
 [CSV,JSON,XML,"pkg/index/sqlite.go","pkg/index/fts5.go","pkg/index/wildcard/node.go","pkg/index/wildcard/position.go","pkg/index/wildcard/stream.go",JA,JO,JC],
 [("error propagation through iterators","pkg/input/*.go, pkg/index/*.go")],["HTTP responses under faults"])
p("C11","The service recovers once faults stop",
 "After any sequence of transient faults - I/O errors, exhausted handles, failed accepts, stalled or aborted clients - once the faults stop, every subsequent well-formed request is answered correctly within a bounded time, without a restart. Only a fault from which the service exits with a non-zero status may end it.",
 ["fault_sequences","histories","schedules"],"all finite transient fault sequences followed by a fault-free period",
 "No test injects faults, so nothing checks that internal state survives them.",
 [CSV,JSON,XML,HTTP,"pkg/index/sqlite.go","pkg/index/fts5.go"],[("per-request state, shared readers","pkg/input/*.go")],["HTTP responses after faults stop"])
p("C12","Each request gets exactly one well-formed response with the right status",
 "Every complete request gets exactly one well-formed HTTP response: 200 with one complete JSON document when the request can be answered, 404 with a JSON error when no route matches or an object route finds no record, and 500 with a JSON error for an invalid parameter. This holds for every route parameter combination, request splitting, pipelining or keep-alive pattern, and no request makes the service terminate.",
 ["inputs","schedules","histories"],"all requests (routes, parameters, encodings), packetizations and connection life cycles",
 "Tests send one well-formed request per connection in one piece.",
 [HTTP,JA,JO,"pkg/parser/parser.go"],[("handler: error and success callbacks","getHandlerFunc"),("route regular expressions","createPathRegexp")],["HTTP responses"])
p("C13","Pages tile the full result",
 "For any filter, fetching consecutive pages with limit and offset and concatenating them gives the complete result exactly once in order, whatever else the service is doing meanwhile; a page never exceeds the requested limit or the configured maximum, and an offset past the end gives an empty list.",
 ["inputs","schedules","histories"],"all limits, offsets, filters and indexes, with pages fetched concurrently and in any order",
 "Tests fetch one or two pages from a mock input.",
 [JA,"pkg/input/record/join.go"],[("offset skipping and limit","JsonArray.Handle")],["HTTP responses"])
p("C14","Relationships contain exactly the matching children",
 "In every response each relationship of each record contains exactly the records of the related input that match the parent on all configured properties - sorted as configured with ties in file order, cut to the limit, nested recursively; the first match, or null, when it is not an array. This holds under concurrent requests on the same and the related inputs.",
 ["inputs","schedules","configurations"],"all data, relationship configurations (several properties and indexes, nesting, sorting, limits) and request interleavings",
 "Tests use one parent, a few children and a single goroutine.",
 [JC,"pkg/input/record/sort.go","pkg/input/record/join.go"],[("relationship loading","loadRelationships")],["HTTP responses"])
p("C15","Text decoding of one value is not affected by other values",
 "A text value stored in a configured character set is always returned as the Unicode text it encodes, no matter which other values, valid or malformed, are being or have been decoded by other requests with the same parser.",
 ["schedules","histories","inputs"],"all interleavings of decodes of any values in any supported (also stateful) character set",
 "One test decodes one Shift_JIS value once.",
 ["pkg/parser/string.go","pkg/parser/split.go"],[("charset decoder","String.Parse")],["string fields in HTTP responses"])
p("C16","A failing start-up stops cleanly and serves nothing",
 "If anything fails while starting - a configuration, data, certificate or index file that cannot be opened, read, written, or synced, a full disk, an unavailable port, a failing file watch - the process either exits with a non-zero status without ever having given a wrong answer, or starts and answers every request correctly; with a configuration or certificate that is not valid, or a data file that cannot be indexed because it is malformed, it always exits so and never serves. An error while building an index never leaves an index that a later start accepts and serves wrong answers from.",
 ["fault_sequences","crash_points"],"all placements of one or more I/O, disk-full, listen and watch failures during start-up, followed by a fault-free restart",
 "Tests cover some missing-file cases, never failures in the middle of reading or writing.",
 ["cmd/main.go",CSV,JSON,XML,"pkg/index/wildcard.go","pkg/index/wildcard/stream.go","pkg/index/sqlite.go","pkg/index/fts5.go","pkg/index/map.go","pkg/config/config.go"],
 [("error propagation to main","cmd/main.go")],["exit status","HTTP responses now and after restart"])
p("C17","The same request always gets the same bytes",
 "As long as data and configuration do not change, repeating a request returns a byte-identical body, whatever other requests run at the same time, whatever was requested before, and across restarts. Internal iteration orders never show in a response.",
 ["schedules","histories"],"all repetitions of a request within and across runs, all interleavings and all orders in which unordered internal collections may be walked",
 "Tests call each function once per process; Go randomises map order per walk, so one pass proves nothing.",
 [JC,JA,JO,"pkg/input/record/sort.go"],[("stable sort, ordered joins","pkg/input/record/*.go")],["HTTP response bodies"])
p("C18","The service is reachable only when it is ready",
 "No connection is answered before every parser, input and index of the configuration is completely initialised, so no request is ever answered from a partially built index. Once a service, with http, https or both, has announced its addresses it accepts and answers requests on all of them until a shutdown is requested or the process exits with a non-zero status; it does not stay half available.",
 ["schedules","histories"],"all moments at which clients connect and send requests during start-up, for all data sizes and index kinds",
 "Tests construct objects directly and wait for each constructor; the start-up sequence of the program is never raced by a client.",
 ["cmd/main.go","pkg/service/http.go","pkg/index/wildcard.go","pkg/index/sqlite.go","pkg/index/map.go"],
 [("sequential initialisation, listen last","cmd/main.go")],["first HTTP responses relative to start-up"])
p("C19","A stalled, slow or aborting client does not affect others",
 "A client that sends its request slowly, stops reading the response, disconnects at any point, or sends garbage never delays other clients' requests indefinitely and never changes what they receive.",
 ["schedules","fault_sequences","histories"],"all placements of client stalls, slow reads and writes, aborts and malformed input among concurrent well-behaved clients",
 "Tests use only well-behaved clients, one at a time.",
 [HTTP,CSV,JSON,XML,JA,JO],[("lock held only while reading a record","readerLock"),("response written after data is loaded","Handle")],["HTTP responses of well-behaved clients"])
p("C20","rodb never modifies anything but its own index files",
 "Across any run - start-up, serving, shutdown, crash or fault - rodb never writes to, truncates, renames or removes the data files, the configuration file or any other path except the index files named in the configuration (and sqlite's temporary companions of those).",
 ["histories","fault_sequences","inputs"],"all runs of all other properties' workloads",
 "Tests work on temporary files and never check what else was touched.",
 ["pkg/index/wildcard.go","pkg/index/sqlite/open.go",CSV,JSON,XML],[("inputs opened read-only","os.Open in pkg/input"),("refuse existing index","NewWildcard, NewSqlite")],["write operations on the simulated disk"])
p("C30","Parsers convert each documented textual value to the documented value",
 "Each parser (integer, float, boolean, json, split, string without charset) converts every text that its documentation allows to the documented value and rejects every other text.",
 ["inputs"],"all strings and parser options","Tests sample a few strings per parser.",
 ["pkg/parser"],[("Parse","pkg/parser/*.go")],["Parse results"])
p("C31","Invalid configurations are rejected, valid ones accepted",
 "Every configuration that violates the documented schema or refers to an undefined object is rejected at start-up with an error naming the problem, and every configuration that satisfies it is accepted.",
 ["configurations"],"all YAML documents","Tests sample a few configurations per object type.",
 ["pkg/config","pkg/input/csv_config.go","pkg/index/sqlite_config.go","pkg/service/http_config.go"],[("Validate","pkg/*/*_config.go")],["exit status and error at start-up"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
