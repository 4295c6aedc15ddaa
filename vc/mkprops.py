import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],state=state or [],hook_needed=None)))
p("C01","Every value falls in exactly the right percentile bucket",
"Percentile buckets partition the non-negative 64-bit integers: every value is assigned an index between 0 and 275, values at or below zero get index 0, and any positive value gets the one bucket whose lower boundary is at most the value and whose upper boundary is above it (values past the last finite boundary get index 275), except that the at most three values just below a power of four (15; 61 to 63; 253 to 255; ...) that lie a full bucket step past the last boundary count with the bucket starting at that power, as in every other Atlas client. Assignment is therefore monotone in the value, and asking for the bucket value of a number returns that bucket's upper boundary.",
["inputs"],"every int64 value","tests try a handful of values; the bucket arithmetic has 64 magnitude cases, each with its own base and step, and 2^63 inputs",
["spectator/percentile_buckets.cc","spectator/percentile_buckets.h","tools/gen_perc_bucket_values.cc"],
[("PercentileBucketIndexOf","spectator/percentile_buckets.cc"),("kBucketValues/kPowerOf4Index","tools/gen_perc_bucket_values.cc")],["return values"])
p("C02","Published numbers and strings decode to what was encoded",
"Everything written into a Smile payload decodes, under the Smile format, to exactly the value that was given: every non-negative integer below 2^31, every double bit for bit, and every ASCII string of any length, each as exactly one token. A payload starts with the four header bytes and a start-array token and ends with one end-array token, with the appended values between them in the order they were appended.",
["inputs"],"all ints, all 2^64 doubles, all strings, all append sequences","tests compare a few literal byte strings; the integer encoding switches form at 16, 32, 4096, 524288 and 2^26 and only the first sizes are sampled",
["spectator/smile.cc","spectator/smile.h"],[("SmilePayload::Append","spectator/smile.cc"),("header/array tokens","spectator/smile.h")],["compressed payload bytes"])
p("C03","A compressed payload inflates to the exact bytes appended",
"For every sequence of append operations of any sizes, and every choice of chunk sizes of at least two bytes, the finished result is one complete gzip stream that inflates to exactly the concatenation of the appended bytes, in order, with none lost, duplicated or left over from an earlier use of the same buffer. No write ever goes outside the buffers, and a buffer that was re-initialised gives the same result as a fresh one.",
["inputs","histories"],"every append history and buffer configuration","tests append a few short sequences with one or two chunk sizes; the flush and grow decisions depend on how much zlib has produced",
["spectator/compressed_buffer.cc","spectator/compressed_buffer.h"],[("compress/deflate_chunk/Result","spectator/compressed_buffer.cc"),("Append/maybe_compress","spectator/compressed_buffer.h")],["returned data pointer and size"])
p("C04","Counters neither lose, repeat nor invent increments",
"However increments and measurements of one counter interleave, every non-negative delta is added exactly once and is reported by exactly one later measurement, so the sum of all reported values plus the amount still held equals the sum of the deltas added. Negative or not-a-number deltas change nothing, and a measurement reports nothing when nothing was added and otherwise one value tagged as a count unless the id already carries a statistic.",
["schedules","inputs"],"all thread interleavings of add, increment and measure, all deltas","tests are single threaded and use a few values; a lost update needs another thread between a read and a write",
["spectator/counter.cc","spectator/counter.h","spectator/atomicnumber.h"],[("add_double compare-and-swap loop","spectator/atomicnumber.h"),("exchange in Measure","spectator/counter.cc")],["measurements"])
p("C05","Timers and distribution summaries report exact totals",
"Every recorded non-negative amount contributes exactly once, under any interleaving of recorders, to each of the four statistics: count goes up by one, total by the amount, total of squares by the amount squared, and max becomes the largest amount recorded; negative amounts contribute to none of them. A measurement reports the four statistics under their own statistic tags (timers in seconds and seconds squared), resets all of them, and reports nothing if nothing was recorded.",
["schedules","inputs"],"all amounts and all interleavings","tests record two or three amounts from one thread",
["spectator/timer.cc","spectator/dist_summary.cc","spectator/dist_stats.h","spectator/atomicnumber.h"],[("Record","spectator/timer.cc, spectator/dist_summary.cc"),("Measure","spectator/timer.cc, spectator/dist_summary.cc"),("update_max","spectator/atomicnumber.h")],["measurements"])
p("C06","A gauge reports its last value until its TTL runs out",
"A gauge reports the value of the most recent set, at every measurement taken within its time-to-live of that set, and nothing before the first set. Once the time-to-live has run out, at most one more measurement reports the value; after that nothing is reported until it is set again. The effective time-to-live is the one requested, but never less than 5 seconds, and changing it later takes effect without losing the value.",
["inputs","histories"],"all values, times, TTLs and histories of non-overlapping calls","tests use one or two TTLs and fixed clock steps",
["spectator/gauge.cc","spectator/gauge.h"],[("HasExpired/Measure/get_ttl","spectator/gauge.cc")],["measurements"])
p("C07","Max gauges report the maximum; age gauges the elapsed seconds",
"A max gauge reports, once per interval, the largest value given (any double above the lowest finite one) since the previous measurement under any interleaving of updates, and then starts afresh, reporting nothing for an interval without updates. An age gauge reports at every measurement the number of seconds between now and its last recorded success.",
["schedules","inputs"],"all values and interleavings","tests use one thread and a few values",
["spectator/max_gauge.cc","spectator/max_gauge.h","spectator/age_gauge.h","spectator/atomicnumber.h"],[("update_max","spectator/atomicnumber.h"),("exchange in Measure","spectator/max_gauge.cc"),("Value","spectator/age_gauge.h")],["measurements"])
p("C08","Monotonic counters report each increase exactly once",
"A monotonic counter reports at each measurement the increase of its source value since the previous measurement and nothing if there was none, a decrease or no earlier value; no increase is reported twice or lost when the source is updated while a measurement runs. The unsigned variant counts across 64-bit wrap-around and reports zero for an increase beyond 9.223372e18 (about 2^63); the sampled variant reports the increase divided by the seconds between the two samples and ignores samples older than the latest.",
["schedules","inputs","histories"],"all value sequences, timestamps and interleavings with a measurement","tests step through short fixed histories in one thread",
["spectator/monotonic_counter.cc","spectator/monotonic_counter_uint.cc","spectator/monotonic_sampled.cc"],[("Delta/Measure","spectator/monotonic_counter*.cc"),("SampledRate/Set","spectator/monotonic_sampled.cc")],["measurements"])
p("C09","A tag set is a correct, memory-safe sorted map",
"Whatever sequence of additions, copies and moves built it, and however many tags it holds, a tag set maps each added key to the value added last, holds nothing else, and lists its tags in ascending key order; lookups agree with that map, and two sets holding the same pairs are equal and hash alike whatever the order of insertion. No operation reads or writes outside the storage the set owns, leaks or frees it twice.",
["inputs","histories"],"every history of operations, sets of every size","tests build sets of a few sizes in a few orders; storage switches form above 8 tags and grows by 4",
["spectator/tags.h"],[("insert/reallocate","spectator/tags.h"),("copy/move constructors and assignment","spectator/tags.h")],["size, order, lookup, equality, hash"])
p("C10","Interned strings are unique and contain only valid characters",
"Interning a string returns a reference to a stored copy of the same length in which every character outside A-Z a-z 0-9 . - _ ~ ^ is replaced by an underscore, terminated by a NUL. Two interned strings are the same reference exactly when their sanitised texts are the same, and a reference stays valid and unchanged however many strings are interned later, from any thread.",
["inputs","histories"],"all byte strings and interning histories","tests intern a few strings; 256 byte values, table hit through either the raw or the sanitised text",
["spectator/string_pool.cc","spectator/string_pool.h","spectator/string_intern.h","tools/gen_valid_chars.cc"],[("StringPool::Intern","spectator/string_pool.cc"),("kAtlasChars","tools/gen_valid_chars.cc")],["returned reference and its text"])
p("C11","Ids are identified by name and tags, and derived ids add tags only",
"Two metric ids are equal exactly when their names and their tag sets are equal, and equal ids always have the same hash. Deriving an id with extra tags gives the same name and the original tags overlaid with the new ones and leaves the original unchanged; giving a default statistic adds it only when no statistic tag is present.",
["inputs"],"all ids and tags","tests derive a few ids",
["spectator/id.h","spectator/common_refs.h"],[("WithTag/WithTags/WithStat/WithDefaultStat/Hash","spectator/id.h")],["name, tags, hash"])
p("C12","A datagram of any size is received within bounds and handed over whole",
"A datagram of any length up to the receive buffer is handed to the parser exactly as received, terminated by a NUL, and the server never writes outside its receive buffer. Errors and empty datagrams are handed to nobody, and after every completion another receive is started.",
["inputs","fault_sequences"],"every transfer size and error code","no test drives the receive path; a datagram as large as the buffer is needed",
["server/udp_server.cc","server/local_server.cc","server/udp_server.h","server/local_server.h"],[("async_receive completion","server/udp_server.cc, server/local_server.cc")],["recv buffer, handler calls"])
p("C13","Kernel statistics files are read within bounds and correctly",
"Reading the maximum socket buffer size gives the number in the file, or 16 MiB if the file is missing, empty or not a number, whatever its contents and length and without touching memory outside the read buffer. Reading the UDP statistics gives the receive queue and drop count of the first line whose local port matches, and no result if none does.",
["inputs"],"all file contents","tests read two fixture files",
["server/proc_utils.cc"],[("max_buffer_size/udp_info","server/proc_utils.cc")],["return values"])
p("C14","Each protocol line performs exactly the one update it describes",
"A line TYPE[,EXTRA]:NAME[,KEY=VALUE]...:VALUE performs exactly one update, of the meter kind its type letter selects, on the id with that name and those tags, with the given value in that type's unit and any TTL or timestamp given; a line with a missing name, an unparsable value or tags, an invalid TTL or timestamp, or an unknown type is reported as an error and updates nothing. Parsing never reads beyond the end of the line.",
["inputs"],"all byte strings as lines","tests parse a few dozen literal lines and are not even built here",
["server/spectatord.cc","server/spectatord.h"],[("parse_line","server/spectatord.cc"),("get_measurement","server/spectatord.cc")],["meter updates, returned error"])
p("C15","Each statsd line performs exactly the update it describes",
"A statsd line NAME:VALUE|TYPE[|@RATE][|#TAG[:VALUE],...] updates exactly one meter of the kind for its type with that name and those tags (a tag without a value gets the value 1): a counter adds the value divided by the rate, a gauge is set to the value, a histogram records the value and a timing the value in milliseconds, as many times as the rounded inverse of the rate, and a set updates nothing. A line that lacks a name, has an unparsable value, an unknown type, an empty tag key or value, or a rate outside (0, 1] is reported as an error and updates nothing, and parsing never reads beyond the end of the line.",
["inputs"],"all byte strings as lines","tests parse a few literal lines",
["server/spectatord.cc"],[("parse_statsd_line/add_tag/update_statsd_metric","server/spectatord.cc")],["meter updates, returned error"])
p("C16","A packet is split into lines and every line is counted once",
"Every line of a received packet, in order and however many there are, is parsed exactly once, and empty lines between them are skipped; a line in error does not stop the lines after it. When status metrics are enabled each line adds one to either the parsed counter or the parse-error counter, and the result carries the errors of all failing lines in order, or no error if there were none.",
["inputs"],"all packets and line outcomes","tests send packets of at most a few lines",
["server/spectatord.cc"],[("parse_lines","server/spectatord.cc")],["parser calls, counters, returned error"])
p("C17","One id of one kind always means one meter",
"Asking the registry for a meter creates it the first time and returns that same meter every later time, for every meter kind, until it expires or is deleted, so no two live meters of one kind share an id; different ids and different kinds never share a meter. Age gauges are created only while fewer than the configured limit exist; beyond it the caller gets a working age gauge that is not registered, and asking for a gauge with a TTL also applies that TTL to the existing gauge.",
["histories","inputs","configurations"],"all call histories and ids","tests look up a few ids of a few kinds",
["spectator/registry.h","spectator/registry.cc"],[("meter_map::insert","spectator/registry.h"),("Get* functions","spectator/registry.cc")],["returned pointers, registry size"])
p("C18","Idle meters, and only idle meters, are removed",
"An expiration pass removes exactly the meters not updated within the registry's meter TTL (gauges: their own TTL), of every meter kind except age gauges, which are never expired, and leaves every other meter registered with its state untouched. The pass reports the number removed and the number examined, and deleting one meter or all meters of a kind by an administrator removes exactly those.",
["histories","inputs"],"all registry contents, ages and TTLs","tests expire one or two meters of some kinds",
["spectator/registry.h","spectator/registry.cc"],[("remove_expired","spectator/registry.h"),("is_meter_expired","spectator/registry.h"),("DeleteMeter/DeleteAllMeters","spectator/registry.cc")],["registry contents"])
p("C19","Every live meter of every kind is measured in each interval",
"Taking measurements visits every registered meter of every kind exactly once, skipping only those that have expired, and returns exactly what those meters report. The registry's size is the number of registered meters of all kinds.",
["histories","configurations"],"all registry contents","tests register a few kinds and forget others",
["spectator/registry.h","spectator/registry.cc"],[("all_meters::measure/size","spectator/registry.h"),("meter_map::measure","spectator/registry.h"),("Registry::Measurements","spectator/registry.cc")],["returned measurements"])
p("C20","Percentile meters record both the base meter and one bucket",
"Recording an amount into a percentile timer or percentile distribution summary records the unclamped amount in the base meter of the same id and adds one to exactly one counter, the one tagged with the percentile statistic and the tag of the bucket holding the amount clamped to the configured range. Negative amounts change neither the base statistics nor any bucket.",
["inputs"],"all amounts and ranges","tests record a fixed list of amounts",
["spectator/percentile_timer.h","spectator/percentile_distribution_summary.h","tools/gen_perc_bucket_tags.cc","spectator/util.h"],[("Record/get_counter","spectator/percentile_timer.h, spectator/percentile_distribution_summary.h"),("restrict","spectator/util.h")],["counter ids and counts"])
p("C21","Every measurement is published in exactly one batch",
"For every number of measurements and every positive batch size, a publishing round splits the measurements into consecutive batches of at most the batch size whose concatenation is exactly the measurements, encodes and posts each batch once, and waits for all of them. When publishing is disabled or there is nothing to send, nothing is posted.",
["inputs","configurations"],"all measurement counts and batch sizes","tests publish less than one batch",
["spectator/publisher.h"],[("send_metrics","spectator/publisher.h")],["HTTP posts"])
p("C22","A published batch describes exactly its measurements",
"A payload holds a string table of distinct strings and then, per measurement in order, the number of tags, the index pairs for every common tag, every tag of its id and its name, the operation and the value, and every index refers to the right string. The operation is add for the count, total, total-of-squares and percentile statistics and max for everything else.",
["inputs","configurations"],"all measurements and common tags","tests check a couple of measurements and are not built here",
["spectator/publisher.h"],[("build_str_table/get_common_ids/append_measurement/op_from_tags","spectator/publisher.h")],["payload bytes"])
p("C23","Every measurement of a batch is accounted as sent or dropped",
"Whatever status and body the aggregator answers with, handling the answer never crashes and the numbers of sent and dropped measurements it yields are non-negative and add up to the batch size: all sent for 200, all dropped for connection errors, server errors and unintelligible answers, and otherwise as many dropped as the answer's error count says. When status metrics are enabled the dropped ones are added to the counter for their cause.",
["inputs","fault_sequences"],"all status codes and response bodies","tests answer with 200 only",
["spectator/publisher.h"],[("handle_aggr_response","spectator/publisher.h")],["status counters, returned pair"])
p("C24","Failed requests are retried at most twice and only when retryable",
"An HTTP request is attempted at most three times: it is retried after a connection failure only while the total timeout has not elapsed, after a status 429 or 5xx, and never after any other answer, with the same method, URL, headers and body each time. The caller gets the status of the last attempt, or -1 if no answer came.",
["fault_sequences"],"all sequences of transport results and status codes","tests cover one or two failure sequences against a live server",
["spectator/http_client.cc"],[("HttpClient::perform","spectator/http_client.cc")],["requests made, response"])
p("C25","The percentile cache keeps recently used entries and drops stale ones",
"Looking up a percentile meter by id returns the cached one for that id, creating it only if absent, and marks it as used now. An expiration pass removes exactly the entries not used for more than 120 seconds, keeps all the others, and returns the number of entries before the pass and the number removed.",
["histories"],"all cache contents, ages and histories","no test covers the cache",
["server/expiring_cache.h"],[("get_or_create/expire","server/expiring_cache.h")],["returned pointers and counts"])
p("C26","Administrative changes are local-only and limited to allowed tags",
"A request that changes state (setting common tags, deleting meters) has an effect only if its host names the local machine, and common tags change only if the request is a JSON object all of whose keys are in the allowed set and all of whose values are strings; otherwise nothing changes and a client error is returned. An accepted request sets exactly the given tags, removes those given an empty value, and touches no others.",
["inputs"],"all requests","tests send a handful of requests and are not built here",
["admin/admin_server.cc","spectator/registry.cc"],[("RequestHandler::handleRequest/POST_config_common_tags/DELETE_metrics","admin/admin_server.cc"),("UpdateCommonTag/EraseCommonTag","spectator/registry.cc")],["HTTP status, configuration, registry contents"])
p("C27","No meter is used after it has been freed",
"A meter or id that a measurement, an administrative listing or a publishing round refers to stays alive until that use ends, whatever expiration or deletion happens meanwhile.",
["schedules"],"all interleavings of publishing, listing, expiration and deletion","needs a particular interleaving of background threads",
["spectator/measurement.h","spectator/registry.h","admin/admin_server.cc"],[("shared ownership of meters","spectator/registry.h")],["memory accesses"])
p("C28","Starting and stopping always terminate",
"After a stop request every background thread ends and stopping returns, whatever the state of publishing, expiration or receiving at that moment.",
["schedules"],"all interleavings of start, stop and background work","liveness over thread schedules",
["spectator/publisher.h","spectator/registry.cc","server/spectatord.cc"],[("should_stop flags and condition variables","spectator/publisher.h, spectator/registry.cc, server/spectatord.cc")],["termination"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80; 
