head = open('/verif/DESIGN.md').read().split('### What the extraction drops')[0].split('## Properties')[0].replace('(This file is completed as the work proceeds.)\n\n','')
body = r'''
### What the extraction drops

The verified text is the LLVM IR clang makes of the files of /repo on every run; nothing is rewritten by hand.  A driver
(`vc/drivers/cXX.cc`) only includes the real headers or sources and exports entry points, sizes and field offsets.  Dropped or
replaced: `ska/flat_hash_map.hpp` (absent from the checkout, the repository's build downloads it) is an alias of
`std::unordered_map`; `percentile_bucket_tags.inc` is generated by the repository's own generator source; private members are
made reachable with `-fno-access-control`; clang's `-O0` lowering is trusted to be the semantics of the code; exceptions are
not followed unless a spec says so ("memory is available").  Optimisation is limited to `sroa,simplifycfg`.

### Machine arithmetic, memory, threads

* Integers are bit vectors, with C++ wrap-around; no integer is treated as mathematical.  Doubles are z3/IEEE terms where a property is
  about them; conversions and products that no property depends on are uninterpreted functions (sound: any result is allowed).
* Memory is a set of objects; every access has to be inside its object, initialised (reading an uninitialised cell yields an
  arbitrary value) and alive.  Two live objects never overlap (assumption A-ptr).
* Concurrency is handled by *interference contracts* where a property quantifies over schedules: between any two atomic
  accesses, or outside of a critical section, the shared cells may have changed in any way the other threads' contracts allow
  (C04, C05, C07, C08: per atomic access; C17, C25: tables havocked between critical sections; C21: work posted to the pool is
  verified on a state of its own).  This is rely/guarantee by hand: relaxed reordering between different fields is not modelled.

### Loops and soundness of the inference

A loop is cut by the conjunction of the candidates that survive Houdini (initiation and consecution proved by the solver).  When the
solver did not *answer* about a candidate, the task is repeated with longer limits; if it is still open, failed obligations of the task
are reported as undecided, never as violations ("weak" tasks).  An engine bug found by planted changes (a cell that is written in a
loop but uninitialised at its entry kept its symbolic value) is fixed; the vacuity guards (number of obligations, covers: the states a
spec says must be reachable) exist because of it.

### Alarms on refactorings

A spec that meets a library call it has no contract for raises `Unsupported`: the check prints `UNDECIDED`, exits 0, and the native
harness of the property stands in, bounded and labelled so.  Specs state what a function does at its interface (ghost positions, sets,
counts), not how: each was tried against 10 to 25 hand-made changes, about half of them behaviour preserving (loops rewritten, helpers
extracted, other library calls), before it was committed.
'''
P = {
'C01': ('`get_bucket_index` and the table of bounds: the exact index is proved for all 2^64 values, by cases over the 276 buckets (the table is read off the compiled initialiser, its shape proved against the generator formula).',
        'The statement names the exception set (up to three values just below a power of four): it is what the code does, found by the proof; the earlier wording without it was too strong.'),
'C02': ('`SmilePayload::Append` for int, double, string and `Init`/`Result`: the bytes given to the compressor are those of the Smile token, decoded by an independent ghost decoder, for every integer below 2^31, every double and strings of any length.',
        'Found and fixed: a missing token byte for 4-byte varints.'),
'C03': ('Every function of `CompressedBuffer` keeps the invariant in the header of `specs/c03.py` (bytes buffered, consumed, output), zlib\'s `deflate` is a contract with ghost input and output streams; termination of `compress` rests on zlib making progress.', ''),
'C04': ('`Counter::Add`, `Increment`, `Measure`, and `add_double` under interference: a linearisation point per operation is identified by ghost state and the delta is counted at it exactly once.', 'Found and fixed: an add whose compare-exchange compared with another read; NaN poisoning.'),
'C05': ('`Timer::Record`, `DistributionSummary::Record` and their `Measure`, `update_max`, under interference: each of the four cells gets the amount exactly once, negative amounts none.', ''),
'C06': ('`Gauge::Set/SetTtl/Measure/HasExpired` sequentially, for all times, TTLs and values.', 'Limits: operations on one gauge do not overlap (a Set racing an expired Measure can lose the value: noted, not claimed), and one report after the TTL ran out is allowed because the code measures before it checks.'),
'C07': ('`MaxGauge::Update/Measure` under interference; `AgeGauge::Measure` for all clocks.', 'Updates with the lowest finite double are outside: it is the "nothing yet" marker.'),
'C08': ('`MonotonicCounter`, `MonotonicCounterUint`, `MonotonicSampled`: the telescoping argument in `specs/c08.py`.', 'The limit 9.223372e18 of the statement is the code\'s guard against a decrease. Two samples with equal timestamps give an infinite rate (left as is). Four defects fixed.'),
'C09': ('`Tags`: `add`, `insert`, copies, moves, assignment, lookup, equality, hash, iteration, `add_all`, for an arbitrary sorted set of any size, inline or on the heap; heap ownership by object states (freed once, never leaked).', 'Two defects fixed.'),
'C10': ('`StringPool::Intern` against the contract of the hash map; sanitising by the table of valid characters, `StringComparer`/`StringHasher`.', '`Intern` indexes with 32 bits: texts below 2^32 bytes.'),
'C11': ('`Id` and its deriving functions over C09\'s contract of tag sets.', ''),
'C12': ('`LocalServer`, `UdpServer`: `Start` up to `async_receive`, then the completion handler for every error, length and content.', 'A datagram longer than the 65536 byte buffer is cut by the kernel before the code sees it. One defect fixed.'),
'C13': ('`max_buffer_size`, `udp_info` over contracts of stdio, `strtol`, `StrSplit`.', 'The first 4095 bytes are read; lines of 4096 bytes and more are outside. One defect fixed.'),
'C14': ('`parse_line`, `get_measurement` and the update functions behind them, lines of any length; the grammar runs as ghost code.', 'Settled by reading: a KEY is everything up to the next `=`; an empty tag is an error; an X line needs a timestamp of at most INT64_MAX/1e6 ms; values whose conversion to an integer is undefined in C++ are outside. Four defects fixed.'),
'C15': ('`parse_statsd_line` and the functions behind it, likewise.', 'Liberal in characters that follow a part, as the code is. Three defects fixed.'),
'C16': ('`parse_lines` and `parse`/`parse_statsd`: packets of any length, any parser of lines.', 'An empty line at the very start may be parsed or skipped.'),
'C17': ('All `Get*` of the registry and `meter_map::get_or_create`, each from an arbitrary content of the tables, with interference between critical sections.', 'One defect fixed.'),
'C18': ('`meter_map<X>::remove_expired` for all nine kinds (loop over the abstract table with one symbolic point entry), `all_meters::remove_expired`, `Registry::remove_expired_meters`, `DeleteMeter`, `DeleteAllMeters`.', 'Not claimed: status counters that expire are orphaned (the registry keeps counting in a counter no longer registered); a TTL of 0 in the configuration gives default gauges 5 s.  Two critical sections in `remove_one` (contains, erase) are no violation: the second reports absence.'),
'C19': ('`meter_map<X>::measure` for all kinds, `all_meters::measure/size`, `Registry::Measurements/Size`.', 'One defect fixed (monotonic sampled sources were never visited).'),
'C20': ('`PercentileTimer`, `PercentileDistributionSummary`: `Record`, constructors, `counter_for`, over C01, C05, C11, C17.', 'Holds as long as the base meter lives (see assumptions). One defect fixed.'),
'C21': ('`Publisher::send_metrics` with its batching loop and the work it posts: batches adjoin, are non-empty, at most the batch size, and end with the last measurement; a posted piece of work encodes its batch into a buffer it took under the lock, posts it once, returns the buffer, then counts down; the round waits for as many as it posted.', 'A batch size of 0 would never end (a precondition); a machine that reports no cores would have no buffers (likewise).'),
'C22': ('`build_str_table`, `get_common_ids`, `add_tags`, `append_measurement`, `op_from_tags`, `measurements_to_json`: every item appended to the payload is the one the contract lists at that position, through contracts of the table.', ''),
'C23': ('`handle_aggr_response` for every status and an arbitrary JSON value: rapidjson accessors carry the preconditions rapidjson asserts. The depth obligation is that parsing is iterative.', 'The statement does not ask that a 200 adds to the sent counter (the code does not). One defect fixed.'),
'C24': ('`HttpClient::perform` for attempts 0..2 with its recursive call against its contract, and `Post`, `Get`, `Put`, `method_header` (lists of headers of any length).', 'A failed connection is retried iff the time of that attempt is below the total timeout and fewer than three attempts were made.'),
'C25': ('`expiring_cache::get_or_create`, `expire` for both percentile kinds, in their critical sections.', 'The clock is read once per pass.'),
'C26': ('`RequestHandler::handleRequest` (with the POST and DELETE handlers inlined) for any method, path and host (texts of any length and content) and any body: one that does not parse (the exception is modelled and caught by the real handler), one that is not an object, objects with any number of members. At every call that changes state the obligations are: the host names the local machine, the body is an object, an arbitrary member W is allowed and a string; at the end W is set or removed exactly as given. `Registry::UpdateCommonTag` and `EraseCommonTag` over a map from texts to texts. The GET handlers: no function reachable from them changes state.',
         'The id of a DELETE (`parse_id`) is only exercised by the bounded harness. The set of allowed tags is whatever the handler is built with. One defect fixed: any host that merely contained localhost, 127.0.0.1 or [::1] was accepted.'),
'C27': ('Not applicable: the property is about interleavings of several threads over raw pointers and references (`Measurement` holds `const Id&`, listings return raw meter pointers); sequential contracts over LLVM IR have no permissions to express it. Reading the code, it does **not** hold: a meter expired between `Measurements()` and the encoding of its batch leaves a dangling id.', ''),
'C28': ('Not applicable: termination of stopping is liveness over schedules of condition variables and asio event loops; pre- and postconditions are silent on it.', ''),
}
import json, os, sys
sys.path.insert(0, '/verif')
props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
import importlib
seeds = {}
for d in sorted(os.listdir('/verif/seeded')):
    seeds.setdefault(json.load(open('/verif/seeded/%s/meta.json' % d))['property'], []).append(d)
o = [head.rstrip(), body.rstrip(), '', '## Properties', '',
     'For each: what is under contract, the assumptions left unchecked, the bounded companion run, and the planted changes the check catches (all are caught, by failed obligations; most also by an input of the native run).', '']
for i, p in props.items():
    d, note = P[i]
    o += ['### %s %s' % (i, p['title']), '']
    if os.path.exists('/verif/vc/specs/%s.py' % i.lower()):
        s = importlib.import_module('vc.specs.' + i.lower())
        o += ['* Under contract: ' + d]
        if note:
            o += ['* Notes: ' + note]
        if getattr(s, 'ASSUMPTIONS', None):
            o += ['* Assumptions: ' + '; '.join(s.ASSUMPTIONS) + '.']
        o += ['* Trusted contracts: ' + '; '.join(getattr(s, 'TRUSTED', []) or ['those of `vc/lib.py` only']) + '.']
        o += ['* Native run (bounded, not counted): ' + s.HARNESS['what'] + '.']
        if i in seeds:
            o += ['* Planted and caught: ' + ', '.join('`%s`' % x for x in seeds[i]) + '.']
    else:
        o += [d]
    o += ['']
o += ['## Genuine defects', '', 'Repaired by `fix:` commits in /repo, listed in `KNOWN_FINDINGS` (format in its header); each was reproduced on the real code by the property\'s harness before it was repaired.', '',
'Seen and not claimed: the admin server\'s changes of common tags never reach the publisher, which copied them at construction; `Percentile(counts, 0.0)` with an empty first bucket is NaN (used by tests only); '
'pointers handed out by the registry can dangle after expiry (C27).', '']
open('/verif/DESIGN.md', 'w').write('\n'.join(o))
