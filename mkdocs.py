#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, na=na, state=state))

I = "internal/"
prop("R01", "What was exported is what a scan returns",
 "After any sequence of exports, flushes and restarts, an unfiltered scan over a time range that covers everything returns exactly the resources, scopes, metrics, data points, log records and spans that were accepted, each once and with every field, series in ingestion order. Other signals are unaffected.",
 ["histories"], "every sequence of up to N operations out of exports of messages of each signal, flushes, clean restarts and day/hour changes",
 "The tests store one fixture and read it once; nothing composes several exports, flushes, views, shards and restarts.",
 [I+"service/service.go", I+"store/store.go", I+"store/scan.go", I+"dataframe/dataframe.go", I+"arrow3/arrow3.go", I+"data/data.go"],
 [("buffer and flush", I+"service/service.go (Service.flush)"), ("columnar storage of samples", I+"dataframe/dataframe.go"), ("merge of the samples of a scan", I+"data/*.go Collapse*")],
 ["Export RPCs, ScanSamples"],
 "explicit-state enumeration of operation histories on the real server, oracle: reference model of accepted telemetry",
 "All histories within the stated alphabet and depth; badger and rbf run for real. Server clock and flush ticks are driven by the check.")
prop("R02", "A filtered scan returns exactly the matching samples",
 "A scan with filters returns every stored message of its signal and time range that carries all of the named properties (resource/scope schema, scope name/version, metric or span name, log level, trace/span/parent ids, and attributes of the resource, scope and record), and no message that lacks one. Properties of the same kind with different keys, values or places are never confused, however long they are and whatever separators they contain, also when their xxhash is the same.",
 ["inputs", "configurations"], "every filter set up to a size over a vocabulary built to collide (shared values across properties, prefixes, separators, empty keys, long values that differ at any place, crafted pairs with one xxhash) times every subset of stored messages",
 "Tests look up one label of one fixture; confusions between labels and absent labels need combinations.",
 [I+"store/scan.go", I+"transform/transform.go", I+"labels/labels.go", I+"keys/keys.go", I+"translate/translate.go", I+"shards/shards.go"],
 [("labels of a message", I+"transform/*.go"), ("filters to labels", I+"store/scan.go CompileFilters"), ("conjunction over the index", I+"shards/shards.go")],
 ["ScanSamples"],
 "exhaustive enumeration of filter sets × stored messages on the real server, oracle: set semantics over labels",
 "Complete for the vocabulary and filter set size of the tier. Message granularity, as designed: record granularity is R14.")
prop("R03", "An instant query returns the most recently ingested match",
 "A scan without a time range returns the most recently ingested message that matches, among those whose time falls in the clock hours touched by the last 15 minutes, and nothing when there is none; with a different current time given, the same relative to it. It is that one message whatever the limit and the order asked for.",
 ["histories", "inputs"], "every placement of up to N messages around window and hour boundaries, ingested in every order, queried at every one of a set of current times and offsets",
 "Tests never run an instant query against a store with several messages in several hours.",
 [I+"store/scan.go", I+"view/view.go"], [("instant window", I+"store/scan.go Scan"), ("hour views", I+"view/view.go")], ["ScanSamples"],
 "exhaustive enumeration of placements and query times on the real server, oracle: reference model",
 "Complete within the stated grid of times.")
prop("R04", "A range query covers its whole range, and only units it touches",
 "A scan over a time range returns every matching message whose points lie in the range, for ranges of any length and alignment including across hour, day, month and year ends. It returns nothing from clock units (hours; days, months or years for long ranges) that the range does not touch. The range is as given, a current time or an offset in the same scan does not move it.",
 ["inputs", "histories"], "every pair of range ends over a set of boundary instants, times messages at every one of those instants",
 "Tests compute the view names of one fixture range; off-by-one errors at unit boundaries need every alignment.",
 [I+"store/scan.go", I+"view/view.go", I+"batch/time.go", I+"visit/visit.go"], [("choice of views of a range", I+"view/view.go Search"), ("views of a sample", I+"view/view.go Std")], ["ScanSamples"],
 "exhaustive enumeration of ranges × sample times on the real server, oracle: calendar reference model",
 "Known finding: a message whose points lie in several hours is found through the hour of its earliest point only.")
prop("R05", "Limit and reverse pick a prefix of the full answer",
 "With a limit n a scan returns exactly the first n matching messages in time order (the last n with reverse), for any spread of messages over hours and internal storage units. Limit 0 means no limit. Messages that were not ingested in time order are in time order too when the range is shorter than a day.",
 ["inputs", "histories"], "every limit from 0 past the size, both directions, over every layout of messages in views and storage shards",
 "No test sets a limit.",
 [I+"store/scan.go", I+"dataframe/dataframe.go"], [("limit and order", I+"store/scan.go")], ["ScanSamples"],
 "exhaustive enumeration of limits, directions and layouts on the real server, oracle: prefix of the unlimited answer of the model",
 "For ranges of a day or more, order is claimed for messages ingested in time order.")
prop("R06", "No interleaving loses, repeats or alters an accepted export",
 "Whatever the interleaving of concurrent exports, timed flushes and shutdown, every export that was acknowledged is stored exactly once with the telemetry it carried, no part of one export shows up in another, and the server does not deadlock or crash.",
 ["schedules"], "every schedule of concurrent exporters, the flush timer and shutdown up to a preemption bound",
 "The tests run one goroutine at a time and never reach the flush timer or the shutdown.",
 [I+"service/service.go", I+"transform/transform.go", I+"samples/samples.go", I+"seq/seq.go"],
 [("buffer shared by receivers and flusher", I+"service/service.go"), ("pooled transform contexts", I+"transform/transform.go")], ["Export RPCs, ScanSamples after the run"],
 "stateless model checking of the real code under a controlled scheduler (preemption-bounded, all schedules)",
 "Database libraries are atomic steps; code of the repository is interleaved at every statement that touches shared state, through a check-time rewrite of its sources.")
prop("R07", "A query during a flush sees each sample once or not yet",
 "A scan that runs concurrently with exports and flushes returns every message that was stored before it began, never returns a message twice or partially or one that does not match, and does not fail or crash the server. What one finished scan returned, every scan that begins later and matches it returns too, whatever the length of its range.",
 ["schedules"], "every schedule of scans against a flush up to a preemption bound",
 "No test runs a query and a flush at the same time.",
 [I+"service/service.go", I+"store/store.go", I+"store/scan.go", I+"shards/shards.go", I+"dataframe/dataframe.go", I+"translate/translate.go"],
 [("order of the writes of a flush", I+"store/store.go"), ("shard map", I+"shards/shards.go")], ["ScanSamples"],
 "stateless model checking of the real code under a controlled scheduler (preemption-bounded, all schedules)",
 "Database libraries are atomic steps.")
prop("R08", "A crash loses only what was not flushed, and corrupts nothing",
 "If the process dies at any point, a restart succeeds, every message whose flush had completed is still returned exactly and by the same queries, and messages of an interrupted flush are each present in full or absent, the same for queries of every range. New exports after the restart are stored without overwriting or mislabelling older ones.",
 ["crash_points", "histories"], "a crash at every statement of a flush, a start and a stop, in every history up to a depth, followed by restart and further exports",
 "The tests never kill a server.",
 [I+"service/service.go", I+"store/store.go", I+"seq/seq.go", I+"translate/translate.go", I+"dataframe/dataframe.go"],
 [("order of the writes of a flush", I+"store/store.go"), ("leases of ids", I+"seq/seq.go"), ("leases of label ids", I+"translate/translate.go")], ["ScanSamples after a restart on the files at the crash"],
 "exhaustive crash point enumeration on the real code: copies of the files at every step of a history, each restarted and compared with the model",
 "Process crash: what was written to files survives.")
prop("R09", "A restart changes no answer",
 "A clean stop and start changes the answer of no query: every scan gives the same messages in the same order before and after, and what is exported afterwards is found together with what was there.",
 ["histories", "inputs"], "every query of a set of ranges, filters, limits and directions, after every history up to a depth, before and after the restart",
 "No test reopens the databases.",
 [I+"shards/shards.go", I+"translate/translate.go", I+"seq/seq.go", "cmd/rq/main.go"],
 [("opening existing shards", I+"shards/shards.go"), ("label ids in the database", I+"translate/translate.go")], ["ScanSamples before and after"],
 "differential explicit-state enumeration of histories × queries on the real server across restarts",
 "Differential: the answer before the restart is the oracle; its correctness is R01–R05.")
prop("R10", "Label ids are a bijection for ever",
 "Every distinct label has one id and every id one label: the same label always gets the same id, two labels never share one, lookups in both directions agree, and unknown labels are reported as unknown, across any number of restarts, crashes and other databases in the same store.",
 ["histories", "crash_points"], "every sequence of translate, bulk translate, find, reopen and crash operations up to a depth over keys that are prefixes and encodings of each other",
 "The tests translate a few keys in one process.",
 [I+"translate/translate.go"], [("id lease and two-way keys", I+"translate/translate.go")], ["Translate, TranslateBulk, Find, TranslateID"],
 "explicit-state enumeration of operation sequences on the real code against a reference bijection",
 "Complete to the depth of the tier; badger runs for real.")
prop("R11", "Sample ids are unique and increase",
 "Every id given to a sample is larger than every id given before, across restarts, crashes and lease boundaries, and under concurrent receivers. A crash skips at most 65,536 ids, as every view has a row for each id up to that of its last sample.",
 ["histories", "crash_points", "schedules"], "every sequence of next, release, reopen and crash operations up to a depth, including lease boundaries",
 "There is no test of ids over a restart.",
 [I+"seq/seq.go"], [("leased sequence", I+"seq/seq.go")], ["sample ids"],
 "explicit-state enumeration of operation sequences on the real code against a reference counter",
 "Complete to the depth of the tier.")
prop("R12", "Different properties have different index labels",
 "Two attributes or properties share an index label only when signal, property, key and value are all equal, whatever characters they contain, and labels of queries and of data agree.",
 ["inputs"], "all pairs of (signal, property, key, value) with keys and values over an alphabet of separators, digits, escapes and empty strings up to a length",
 "Tests format a few labels.",
 [I+"labels/labels.go"], [("label encoding", I+"labels/labels.go")], ["label strings"],
 "bounded exhaustive enumeration of all label pairs on the real code",
 "Complete for strings over the alphabet up to the length.")
prop("R13", "Merging messages loses, invents and mixes up nothing",
 "The merge of messages of one signal holds exactly their data points, records and spans, each under the same resource, scope and metric with all their fields; things that differ in any of these fields are kept apart, things that are equal are grouped in order.",
 ["inputs"], "all pairs and triples of messages that differ in one field each, over every field of the schema",
 "The one test merges fixtures that differ in a few fields only.",
 [I+"data/data.go", I+"data/metrics.go", I+"data/logs.go", I+"data/trace.go", I+"data/sort.go"], [("grouping by hashes of identity", I+"data/sort.go")], ["merged message"],
 "schema-driven exhaustive enumeration of message tuples on the real code, oracle: independent flattening",
 "Every field of the schema is covered through reflection; resources with crafted xxhash collisions are included.")
prop("R14", "A query script sees exactly the records it asked for",
 "The telemetry that a query script receives holds exactly the data points, records and spans that satisfy all of its filters and its time range, with all of their fields and their resource and scope, and no empty groups.",
 ["inputs"], "every filter set up to a size over messages with every combination of matching and non-matching resources, scopes, metrics and records",
 "The tests filter a fixture with one or two filters.",
 [I+"visit/visit.go", I+"visit/metrics.go", I+"visit/logs.go", I+"visit/trace.go", I+"js/scan.go"], [("record visitor", I+"visit/*.go")], ["RQ.scan of the script"],
 "exhaustive enumeration of filter sets × messages on the real code, oracle: reference filter",
 "Complete for the vocabulary and sizes of the tier.")
prop("R15", "The columnar format returns what was stored",
 "Any telemetry message that is stored in the columnar format and read back is equal to what was stored, field by field, absent parts as absent, in any batch, at any row and after any earlier contents.",
 ["inputs", "histories"], "every field of the schema with every value class, alone and combined, in every row of batches of mixed messages",
 "The tests round-trip a few hand-written messages.",
 [I+"arrow3/arrow3.go", I+"arrow3/node.go", I+"arrow3/parquet.go"], [("schema-derived builders and readers", I+"arrow3/node.go")], ["message after the round trip"],
 "schema-driven exhaustive enumeration of messages and batches on the real code",
 "Every field path of the schema up to its recursion bound.")
prop("R16", "Compressed requests and responses survive compression",
 "Any sequence of bytes, written in any pieces and read in any pieces, compresses and decompresses to itself through the gRPC codec, also when codecs are reused from a pool by interleaved streams; corrupt or truncated input is an error, never different data, a panic or a hang.",
 ["inputs", "schedules"], "every split of payloads into writes and reads, every truncation and single-byte corruption, every interleaving of pooled streams",
 "There is no test of the codec.",
 [I+"compress/grpc.go", I+"compress/zstd.go"], [("pooled encoders and decoders", I+"compress/zstd.go")], ["bytes after the round trip"],
 "exhaustive enumeration of write/read splits, stream interleavings and corruptions on the real code",
 "Payload sizes and splits within the stated bounds.")
prop("R17", "The index answers conjunctions exactly",
 "For any assignment of labels to samples, over any number of storage shards, views and transactions, a lookup of a set of labels returns exactly the samples that have all of them in that view, and a sample's labels can be listed back.",
 ["histories", "inputs"], "every assignment of a small label set to samples at shard boundaries in every split into transactions, with every lookup",
 "Tests store a handful of rows in one shard.",
 [I+"shards/shards.go", I+"batch/batch.go", I+"dataframe/dataframe.go"], [("shard fan-out", I+"shards/shards.go"), ("row bitmaps", I+"batch/batch.go")], ["lookups of the index"],
 "explicit-state enumeration of index histories on the real code, oracle: reference relation",
 "Complete to the depth and sizes of the tier.")
prop("R18", "Row sets and integer rows compute exact set algebra",
 "Union, intersection, difference, xor, shift, merge, counts and membership on row sets, and building, adding and descending enumeration (with filter, limit and offset) of bit-sliced integers, agree with ordinary sets and integers, and computing them leaves their operands unchanged.",
 ["inputs", "histories"], "all operand pairs and operation sequences up to a depth over sets that straddle shard boundaries",
 "Tests compare a few sets.",
 [I+"rows/row.go", I+"rows/bsi.go"], [("segment walk", I+"rows/row.go"), ("bit-sliced comparisons", I+"rows/bsi.go")], ["columns of the results"],
 "exhaustive enumeration of operand pairs and operation sequences on the real code, oracle: finite sets",
 "Complete for the universe of columns of the tier. Results may share storage with operands: modifying a shared row is not claimed; shift only within a shard, as the code documents.")
prop("R19", "The scan request is what the script said",
 "The request that a query script's builder calls produce names exactly the signal, filters, time range, limit, direction and reference time that the calls describe, for every sequence of calls.",
 ["programs"], "every sequence of builder calls up to a length for every signal",
 "Tests run one script.",
 [I+"js/scan.go", I+"js/rq.go", "packages/rq/src/core.ts", I+"js/bundle/index.js"], [("script bindings", I+"js/scan.go")], ["scan request received by the server"],
 "exhaustive enumeration of scripts (call sequences) run in the real engine with a recording server, oracle: reference builder",
 "Complete to the call depth of the tier.")
prop("R20", "Relative times mean calendar times",
 "The today, this week, this month, this year, latest and 'ago' helpers of query scripts ask for the range from the beginning of the calendar unit (or from that long ago) to the reference time, for every reference time including month, year and leap day ends.",
 ["inputs"], "every helper at every hour of selected years, month ends and leap days and with every offset of a set",
 "No test sets the clock.",
 [I+"js/scan.go"], [("time helpers", I+"js/scan.go")], ["time range of the request"],
 "exhaustive enumeration of reference times × helpers in the real engine, oracle: independent calendar arithmetic",
 "UTC.")
prop("R21", "Rendered tables show every record with its values",
 "The text rendering of telemetry shows each data point of gauges and sums, once, with its time, value in its unit and attributes, for every kind of metric and attribute value, without failing. Integers are shown exactly, and values that a duration or size cannot hold as they are.",
 ["inputs"], "every value kind, unit and attribute value, alone and combined",
 "Tests render a few fixtures.",
 [I+"render/metrics.go", I+"render/attribute.go", I+"render/unit.go"], [("table writer", I+"render/metrics.go")], ["rendered text"],
 "schema-driven exhaustive enumeration of messages rendered by the real code, oracle: independent expectations on the text",
 "Layout (spacing, colours) is not specified.")
prop("R22", "The server's own spans are converted exactly",
 "The spans that the server records about itself are exported with every field of the span, each once under its own resource and scope.",
 ["inputs"], "all lists up to a length of spans differing in every field, over resources and scopes that share or differ in each part",
 "Tests convert a few hand-written spans.",
 [I+"self/trace/tracetransform/span.go", I+"self/trace/tracetransform/attribute.go", I+"self/trace.go"], [("grouping by resource and scope", I+"self/trace/tracetransform/span.go")], ["OTLP message"],
 "exhaustive enumeration of span lists converted by the real code, oracle: independent conversion",
 "Complete for the field variants and list lengths of the tier.")
prop("R23", "The server's own metrics are converted exactly",
 "The metrics that the server records about itself are exported with every data point and field, whatever the SDK does with its memory afterwards, and an aggregation or temporality that can not be exported is reported without dropping the others.",
 ["inputs"], "every aggregation kind, number kind, temporality and attribute kind, alone and in lists with unknown ones in every position",
 "Tests convert one fixture.",
 [I+"self/metrics/transform/metricdata.go", I+"self/metrics/transform/attribute.go", I+"self/metrics/transform/error.go", I+"self/metrics.go"], [("conversion", I+"self/metrics/transform/metricdata.go")], ["OTLP message"],
 "exhaustive enumeration of metric lists converted by the real code, oracle: independent conversion",
 "Complete for the field variants and list lengths of the tier.")
prop("R25", "The time bounds of a message are those of its points",
 "The time span under which a message is stored runs from its earliest to its latest data point, record or span, whatever kinds, order and grouping they have.",
 ["inputs"], "every arrangement of up to N points of every kind with times in every order",
 "Tests check one order for one kind.",
 [I+"transform/transform.go", I+"transform/metrics.go", I+"transform/logs.go", I+"transform/trace.go"], [("min and max of times", I+"transform/*.go")], ["stored time bounds, and the hour the message is found in"],
 "exhaustive enumeration of arrangements on the real code, oracle: minimum and maximum",
 "Complete to the size of the tier.")
prop("R26", "Script caches never change what a script does",
 "A cached compiled script or snippet gives the same program as compiling it afresh, for every script and every order of uses, by one process or several at a time; a cache entry whose writing failed, was interrupted or was not on the disk when the power failed is never run.",
 ["histories", "fault_sequences"], "every sequence of uses of scripts up to a length; a stop of the process or the machine and a failure at every step and byte of a use; every interleaving of the steps of two uses up to a switch bound",
 "There is no test of the cache.",
 [I+"commands/query/query.go", I+"compile/compile.go", I+"snippets/snippets.go"], [("content-addressed cache", I+"commands/query/query.go"), ("program cache", I+"snippets/snippets.go")], ["program that is run"],
 "exhaustive fault and history enumeration on the real command",
 "Renames survive a power failure in order, contents that were not synced need not. Scripts with crafted xxhash collisions are included.")
prop("R27", "The whole server answers clients with what they sent",
 "Telemetry exported over gRPC by a client, uncompressed or with zstd or gzip, is found by the query API and by the rq query command on the same server once the server flushed it, with the same contents, each record once, before and after the server is interrupted or killed and started again, whichever way its address and data directory are given.",
 ["histories", "configurations"], "every combination of signal, compression, query path and stop point in short histories over loopback",
 "No test starts the server.",
 ["cmd/rq/main.go", I+"service/service.go", I+"compress/grpc.go", I+"js/scan.go"], [("wiring of the services", "cmd/rq/main.go")], ["gRPC API"],
 "explicit-state enumeration of client histories against the real server process over loopback",
 "Real processes: the scheduling inside the server is the machine's (R06-R08 explore it). Flush ticks are awaited in real time.")
prop("R28", "No valid request brings the server down",
 "Any well-formed export or scan request, including empty and absent parts, unknown enum values and extreme numbers, is answered with a result or an error: the process does not panic, exit or hang, and later requests work.",
 ["inputs", "histories"], "every message with one field of the schema absent, empty or extreme, for every RPC, followed by a flush and a regular request",
 "Tests send well-filled fixtures.",
 [I+"service/service.go", I+"transform/transform.go", I+"store/scan.go"], [("request handling", I+"service/service.go")], ["RPC results"],
 "schema-driven exhaustive enumeration of requests on the real server",
 "Every field path of the request schemas within the recursion bound.")
prop("R30", "Reused objects carry nothing from one use to the next",
 "Results of ingestion, merging, filtering, rendering and conversion are the same with fresh and with reused internal objects: no earlier request, of any size or outcome, shows in a later one.",
 ["histories"], "every sequence of up to N requests out of an alphabet that includes empty, large and failing ones, each compared with the same request in a fresh process state",
 "Tests use each object once.",
 [I+"transform/transform.go", I+"visit/visit.go", I+"render/pool.go", I+"data/sort.go", I+"batch/batch.go"], [("pools and resets", "sync.Pool users")], ["results"],
 "explicit-state enumeration of use sequences on the real code, differential oracle: fresh objects",
 "Complete to the sequence length of the tier.")
prop("R31", "The server keeps the telemetry of itself",
 "Every request that the server has answered leaves exactly one span of the server itself in its own database, whether or not the client sampled: named after the method, with its status code, times, and below the client's span when it sent one. Each run that is stopped in order leaves metrics that count these requests. They are there after a clean stop and a start, or once the timers of the server have fired, and are found by the same queries as the telemetry of clients, and the example scripts of the repository show them; nothing else leaves spans. Many requests at once are no exception.",
 ["histories"], "every history of up to N requests of every method and outcome, bursts of many requests at once, with and without a trace of the client, and a stop and start at any place",
 "No test runs the server or its exporters.",
 ["cmd/rq/main.go", I+"self/self.go", I+"self/trace.go", I+"self/metrics.go", I+"self/trace/tracetransform/span.go", I+"self/metrics/transform/metricdata.go", I+"store/scan.go"], [("setup of the exporters", I+"self/self.go"), ("order of shutdown", "cmd/rq/main.go")], ["ScanSamples of the server's own telemetry"],
 "explicit-state enumeration of client histories against the real server process over loopback, oracle: the requests made",
 "Real processes: the scheduling inside the server is the machine's. Requests that run while the server stops are not covered.")

def main():
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"]}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80
            if p["na"]:
                na.append({"property": p["id"], "reason": p["na"]})
            elif os.path.exists(os.path.join(V, "harness/cmd", p["id"].lower(), "main.go")):
                checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                    "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
            else:
                na.append({"property": p["id"], "reason": "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
