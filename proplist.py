P("C01", "Sources end their stream once, last, and only on shutdown",
  "When told to shut down, every source answers with exactly one end-of-stream marker to all of its forwards, before it polls again or stops, and never without having been told. Lines it has already read are handed over first and nothing follows the marker. A source that serves connections first tells every connection handler to stop and waits for it, a crashed handler included, and handlers emit nothing after they were told to stop.",
  "schedules histories", "Every source kind, every interleaving of the shutdown wake-up with traffic, timers and connection handlers.",
  "The tests start single sources and never race shutdown against in-flight work or crashed handlers; the claim is about all paths to the end of each source's loop.",
  "src/source/tcp.rs src/source/statsd.rs src/source/internal.rs src/source/file/file_server.rs src/source/flush.rs src/thread.rs src/source/graphite.rs src/source/native.rs src/source/avro.rs",
  [("run loops of the sources", "src/source/*.rs"), ("thread pool shutdown", "src/thread.rs")],
  "path and order analysis on inlined MIR of every source run loop",
  "All paths of every source's run loop and every connection handler are covered, with helper functions and closures expanded.")
P("C02", "Filters forward everything, in order, and end only after all upstreams",
  "A filter stage hands each event it receives to its transformation exactly once and sends on everything that was produced, in production order, before it receives again; an event on which the transformation failed is itself sent on. It forwards end-of-stream exactly once, only after receiving it from every one of its upstreams, and then stops; before that the transformation is asked once for what it held back, and that is sent.",
  "histories inputs", "Every sequence of events, failures and end-of-stream markers from any number of upstreams.",
  "Tests call the transformations directly; no test drives the loop with several upstreams or failures.",
  "src/filter/mod.rs", [("filter run loop", "src/filter/mod.rs run")],
  "path-sensitive must-pass and counting analysis on inlined MIR",
  "All paths of the run loop, including overrides of it.")
P("C03", "Sinks deliver each event once, obey valve and flush pulses, stop once",
  "A sink holds the event it received while its valve is closed, flushing meanwhile, and once open delivers it exactly once through the operation for its kind with all its parts. A flush pulse triggers at most one flush, only if its index is newer than any before and is due under the sink's interval; a sink without an interval is never flushed by pulses. The sink is shut down once, as the last thing it does, after end-of-stream arrived from every upstream.",
  "histories configurations", "Every history of events, pulses, valve states and end-of-stream markers, any interval, any number of upstreams.",
  "No test exercises the loop with a closing valve, duplicated pulses from several timers or more than one upstream.",
  "src/sink/mod.rs", [("sink run loop", "src/sink/mod.rs consume")],
  "path-sensitive must-pass, counting and guard analysis on inlined MIR",
  "All paths of the loop, for an arbitrary sink implementation.")
P("C04", "Configured stages are wired to their own routes and stopped in order",
  "Every stage present in the configuration is started with its own configuration section, its own bounded receive queue (limits and directory as configured), the senders of exactly its own forwards and, for filters and sinks, the set of exactly its own upstreams. Flush pulses are fed into every stage some source forwards to. A forward to a stage that does not exist ends start-up with a failure status before anything is started. On INT or TERM all sources are signalled and joined first, stages nothing forwards to are then told to stop, and the program ends only after every sink and filter has been joined; nothing is stopped earlier.",
  "configurations schedules", "Every configuration: any combination and number of sources, filters and sinks and any topology of forwards.",
  "main has no tests at all; mis-wiring shows only for particular topologies, and shutdown-order faults only as lost events.",
  "src/bin/cernan.rs src/thread.rs src/source/mod.rs src/sink/mod.rs", [("start-up and shutdown", "src/bin/cernan.rs main, populate_forwards, join_all")],
  "whole-function provenance and ordering analysis of main on inlined MIR",
  "All 18 kinds of stages; elements of a section are identified by section and role, so mixing two elements of one section inside one loop iteration is not distinguished.")
P("C05", "Fan-out reaches every forward, retries, and only drops on a full queue",
  "Handing an event to a stage's forwards sends that very event to every forward. A send that fails is repeated with the event it gave back until accepted, except when that forward's queue is completely full: then the event is dropped for that forward only and the drop counted exactly once. An accepted event is never sent again to the same forward, and nothing is counted that was not dropped.",
  "inputs faults configurations", "Any number of forwards (none, one, many), any event, any pattern of queue errors.",
  "Tests never make a queue fail or fill up.",
  "src/util.rs", [("fan-out", "src/util.rs send")],
  "path-sensitive coverage and at-most-once analysis on MIR",
  "All paths of the function for an arbitrary list of forwards.")
P("C06", "The routing matrix records, returns and removes exactly the given edges",
  "Adding edges from a stage to its forwards records each of them in both directions with the given metadata, for every forward, whatever was recorded before; a directed edge replaces the metadata recorded between the same two stages. Asking for a stage's neighbours returns all of them, asking for its senders returns all those recorded, both remove exactly that stage's entry, and filtering returns exactly the neighbours the predicate accepts.",
  "inputs histories", "Every sequence of additions and removals over any set of stage names.",
  "The tests add a handful of edges and do not check senders or repeated additions.",
  "src/matrix.rs", [("adjacency matrix", "src/matrix.rs")],
  "specification matching over value provenance on MIR",
  "All operations main relies on.")
P("C07", "An Avro client is acked only when its own packet has left the Kafka sink",
  "A packet is sent on once, with its content, metadata and order. If its control bit asks for it, and only then, it is filed for an ack under an id of its own before it is sent, waited for until an ack for that id has come, forgotten, and answered with its id as eight bytes with the big end first, written whole; then the next packet is read. A wait never blocks those who ack. The Kafka sink publishes each event's bytes and metadata under the hexadecimal of its order, keeping the id; every message in flight is asked after, and is either acked, when it was published or given up, or, for the errors Kafka may recover from, tried again unchanged and unacked. A flush, as at shutdown, ends when nothing is in flight, and only then the valve's count starts anew.",
  "schedules histories", "Every packet, every sequence of results from the broker, every interleaving of clients and sinks.",
  "Tests use one message or a stub bag; a late ack of an earlier packet or an id lost in a retry shows only in a sequence.",
  "src/source/avro.rs src/source/nonblocking.rs src/metric/ackbag.rs src/sink/kafka.rs", [("AvroStreamHandler::handle_avro_payload", "src/source/avro.rs"), ("write_all", "src/source/nonblocking.rs"), ("SyncAckBag", "src/metric/ackbag.rs"), ("Kafka sink", "src/sink/kafka.rs")],
  "typestate of packets and messages in flight by path enumeration, lock-scope analysis, on inlined MIR",
  "That an ack comes at all depends on a Kafka sink being in the packet's way; librdkafka's reports are taken as true.")
P("C08", "Sinks over the network keep their buffer until the peer has accepted it",
  "The InfluxDB, Wavefront and native sinks put everything they are given into their buffer. A flush sends the whole buffer, repeats the very same payload until the peer has accepted all of it, and only then empties the buffer. Shutting such a sink down flushes it. The valves of InfluxDB, Wavefront and Elasticsearch close exactly while more is buffered than the sink's limit, and Kafka's exactly while at least max_message_bytes bytes have been handed to its producer since the last flush.",
  "faults histories", "Every pattern of connection, write and response failures, any buffer contents.",
  "Tests never make a peer fail; a dropped batch shows only for a failure at a particular point of a flush.",
  "src/sink/influxdb.rs src/sink/wavefront.rs src/sink/native.rs src/sink/elasticsearch.rs src/sink/kafka.rs", [("deliver, flush, shutdown", "src/sink/{influxdb,wavefront,native}.rs")],
  "protocol (typestate) analysis of the retry loops on inlined MIR",
  "All paths of the flush loops; acceptance is what the transport reports (write_all/flush succeeded, HTTP success status).")
P("C09", "What one cernan sends natively, another receives; wire format is sound",
  "The native sink turns each telemetry point it holds into one message with the point's name, time in milliseconds, kind, persistence, tags (the sink's own filling in) and value, and each log line likewise; the native source turns each message back into one event with the same name or path, time, kind, persistence, tags and, for points, every sample in order. The message code writes every field that native.proto names under its number and type, announces exactly the length it writes, and reads back what it writes.",
  "inputs", "Every message: any number of samples, any tags, any strings.",
  "Tests do not exercise the wire format; a wrong length shows only from some number of samples or some text on.",
  "src/protocols/native.rs resources/protobufs/native.proto src/sink/native.rs src/source/native.rs", [("generated messages", "src/protocols/native.rs"), ("Native::flush", "src/sink/native.rs"), ("handle_stream_payload", "src/source/native.rs")],
  "comparison of message code with native.proto and path-by-path value provenance, on inlined MIR",
  "What a histogram's bins are is not carried by the protocol and not claimed.")
P("C10", "Statsd packets are accepted whole, or rejected without a trace",
  "A statsd packet is good if it has a line and every line is a nonempty name, ':', a number, '|' and a type: g, c, ms or h, optionally followed by '@' or '|@' and a sample rate. From a good packet every line makes one point, in order, with the line's name, the time it arrived, and the line's number, divided by the rate if there is one. A gauge persists and is set, or changed if its number has a sign; a counter is summed; a timing is a histogram with the bins of the first mask its name matches, or else summarized with the configured error bound. Nothing of a bad packet, or of one that is no text, is sent, then or later, and datagrams are received until none is left.",
  "inputs histories", "Every packet and sequence of packets, any configuration of masks.",
  "Tests generate well-formed lines; what a bad line in the middle of a packet leaves behind is not sampled.",
  "src/protocols/statsd.rs src/source/statsd.rs", [("parse_statsd", "src/protocols/statsd.rs"), ("handle_datagrams", "src/source/statsd.rs")],
  "path enumeration with string slices in symbolic normal form compared with the grammar, on inlined MIR",
  "What f64::from_str takes for a number is the standard library's business; datagrams longer than the buffer are cut by the kernel.")
P("C11", "Every good Graphite line becomes its points, and a bad one leaves nothing",
  "A Graphite line's words, taken three at a time, are a name, a number and a whole number of seconds; each three make one point, in order, set to that number at that time under that name. A line is bad if it has no words, is no text, or has three words missing or not numbers; nothing of a bad line is sent, then or with a later one. Lines are read until nothing more is there; what has come of an unfinished line is kept until the rest comes; a bad line does not end the connection, and every point of a good line is sent once.",
  "inputs histories", "Every line, every division of a stream into segments.",
  "Tests parse whole well-formed lines; a line divided between segments or a bad one between good ones is not sampled.",
  "src/protocols/graphite.rs src/source/graphite.rs", [("parse_graphite", "src/protocols/graphite.rs"), ("GraphiteStreamHandler::handle_stream", "src/source/graphite.rs")],
  "path enumeration with draws told apart by site, and typestate of the line and point buffers, on inlined MIR",
  "What f64::from_str takes for a number is the standard library's business; a last line without its newline is not guaranteed.")
P("C12", "No input from a peer can crash a source",
  "Whatever bytes arrive over statsd, graphite, the native protocol or Avro, however cut up, and whenever a peer goes away, the source's thread and the connection's handler do not panic: input that makes no sense is counted and refused. Only what is wrong with the configuration or the machine may end them.",
  "inputs faults", "Every sequence of bytes, every cut, every error of a socket.",
  "A crash needs one particular malformed input; tests and fuzzing sample them.",
  "src/protocols/statsd.rs src/protocols/graphite.rs src/source/statsd.rs src/source/graphite.rs src/source/native.rs src/source/avro.rs src/source/nonblocking.rs", [("sources' handlers", "src/source/*.rs"), ("line parsers", "src/protocols/*.rs")],
  "panic-site reachability: path facts, slice-position and size reasoning on inlined MIR",
  "Panics inside external crates are not looked into, except for the known conditions of indexing, slicing and unwrapping.")
P("C13", "Avro packets are read exactly as their format says",
  "A packet is, each number with its big end first, a four-byte version, four bytes of control, an eight-byte id and an eight-byte ordering number; from version 2 on, a one-byte number of metadata and as many pairs of a key after its one-byte length and a value after its two-byte length; all that follows is the content, which has to open as an Avro container. A packet that has all of this is taken with exactly these header fields, pairs (none when their number is zero or the version is lower) and content; one that is cut short anywhere or whose content is no Avro container is not taken at all.",
  "inputs", "Every packet of every version, with every number and length of metadata.",
  "Tests read a handful of captured packets; truncation points, versions and lengths are not enumerated.",
  "src/source/avro.rs", [("Payload::from, Header::read, read_metadata", "src/source/avro.rs")],
  "path-sensitive comparison of the reads made of a packet, in order, with the format, on inlined MIR",
  "byteorder, Cursor and serde_avro are taken by their documented meaning (from_container checks the container's header).")
P("C14", "Length-prefixed payloads are read whole, however they arrive",
  "On native and Avro connections a payload is the bytes that follow its length, four bytes with the big end first. However the stream is divided into reads and wake-ups, each payload is given out once it is whole, exactly as sent, in order, and parsed once; the bytes of a length or payload that have come so far are kept until the rest comes. Payloads are read until the peer has sent no more; the peer is then waited for. A length beyond the limit is refused before room is made for it, and a payload that is none, the end of the stream, or its failure ends the connection; an interrupted read is repeated.",
  "inputs schedules histories", "Every division of every stream into reads.",
  "Tests read whole payloads at once from memory; short reads and would-block errors in the middle of a length are not sampled.",
  "src/source/nonblocking.rs src/source/native.rs src/source/avro.rs", [("BufferedPayload::read, PayloadErr::from", "src/source/nonblocking.rs"), ("NativeStreamHandler::handle_stream", "src/source/native.rs"), ("AvroStreamHandler::handle_stream", "src/source/avro.rs")],
  "evaluation of every path between two reads on all small states of the reader's fields, on inlined MIR",
  "The states evaluated are small (prefix bytes 0-4, sizes around a limit of 10); the code compares these quantities only with one another. Invariant assumed on entry: what is established here on every exit.")
P("C15", "Combining telemetry follows the aggregation table and loses no samples",
  "Adding one value to another yields a value of the right-hand kind for every pair of kinds: a set replaces, sums add (a histogram's or summary's own sum carries over), a sample joins a histogram or summary, histograms and summaries merge including the running sum, a summary's samples all join a histogram, a summary replaces a histogram. Combining points keeps name, tags and timestamp of the left one and the persistence of the right one. Inserting a sample and reading count, sum, set, mean and samples agree with that.",
  "inputs", "Every pair of kinds and every value.",
  "Tests sample values of few pairs; an error shows only for the pair concerned.",
  "src/metric/telemetry.rs", [("Value addition, Telemetry +=, insert, observers", "src/metric/telemetry.rs")],
  "case-specialised symbolic value provenance compared with the aggregation table, on MIR",
  "All sixteen pairs of kinds; quantile sketches themselves are external.")
P("C16", "Building telemetry refuses what makes no sense and keeps what was set",
  "Hardening succeeds exactly when one value and a name were given, an error bound only for summaries and below one, and bin bounds only for histograms. The point it yields has the name, kind, tags, timestamp and persistence that were set, holds the value (or what was thawed), and has the documented defaults for what was not set. Every setter changes its own field only, and thawing a point keeps its name, value, kind, tags, timestamp and persistence. A log line is made of the path and text given, at the present time, with no fields or tags; giving it a time or a field changes only that. An event holds what it is made from and has its time.",
  "inputs", "Every combination of set and unset fields.",
  "The combinations are too many for the tests, which cover the common ones.",
  "src/metric/telemetry.rs src/metric/logline.rs src/metric/event.rs", [("SoftTelemetry setters, harden, thaw", "src/metric/telemetry.rs"), ("LogLine::new, time, insert_field", "src/metric/logline.rs"), ("Event::timestamp, new_telemetry, new_log", "src/metric/event.rs")],
  "case-specialised path enumeration with value provenance on MIR",
  "Summary overrides on other kinds are not constrained.")
P("C17", "Default tags fill gaps, never override, and never appear twice",
  "Iterating a point's or line's tags over a set of defaults yields every own tag once with its own value, then exactly those defaults whose key the point does not have; without own tags it yields the defaults. Looking up one tag agrees with that. Overlaying or merging tags and inserting or removing one tag change exactly the keys named.",
  "inputs histories", "Any own tags, any defaults.",
  "Tests try single cases; an error shows only for particular overlaps.",
  "src/metric/mod.rs src/metric/telemetry.rs src/metric/logline.rs", [("TagIter", "src/metric/mod.rs"), ("tag accessors", "src/metric/telemetry.rs src/metric/logline.rs")],
  "path-sensitive value provenance of the iterator and the accessors on MIR", "All paths of each function.")
P("C18", "Buckets aggregate per series and time bin, count bins, and carry persisted",
  "Adding a point to the buckets puts it into the series of its name and tags, in time order: into the bin it falls in when there is one, where it is combined with what is there, and otherwise into a new bin, which alone increases the count. A persisted point that opens a new bin starts from the previous bin's value. A reset keeps of each series the last point if it is persisted, with the current time, drops everything else, and leaves the count at what was kept. Iteration visits every series once.",
  "histories inputs", "Every sequence of points, in and out of order, and resets.",
  "Property tests exist for some laws; carry-over and resets depend on histories that are not sampled.",
  "src/buckets.rs", [("Buckets::add, reset, iter", "src/buckets.rs")],
  "path-by-path effect comparison on inlined MIR", "All paths of add, reset and the iterator.")
P("C19", "Points are the same series iff name, tags and kind agree, on any run",
  "The hash that identifies a series depends on nothing but the name, all tags and (for the full hash) the kind of aggregation, and not on the order in which a map happens to hold its tags nor on the process. Points are ordered by name, then time, then tags; two points fall into the same bin when name, tags and time divided by the bin width agree, compared in that order. Tags compare by their number first and then pair by pair in key order; no tags is the same as an empty map.",
  "inputs schedules", "Every pair of points; any insertion history and random state of the tag maps.",
  "The order of a map's buckets is random per map, so a test passes or fails by luck; errors show with two or more tags only.",
  "src/metric/telemetry.rs src/metric/mod.rs", [("hash, name_tag_hash, within, partial_cmp", "src/metric/telemetry.rs"), ("cmp_tagmap", "src/metric/mod.rs")],
  "order-taint analysis of map iteration plus decision-path comparison, on inlined MIR", "All paths of the functions named.")
P("C20", "The delay filter passes exactly the events within its tolerance",
  "A telemetry point or log line is passed on, once and unchanged, exactly when its time differs from the current time by no more than the configured tolerance, in either direction and for every timestamp an event can carry; otherwise nothing is emitted for it. Events without a time pass. No event makes the filter fail.",
  "inputs", "Every timestamp and tolerance, including the ends of the integer range.",
  "Tests sample a handful of distances from one clock reading.",
  "src/filter/delay_filter.rs", [("DelayFilter::process", "src/filter/delay_filter.rs")],
  "path conditions over event time, clock and tolerance, decided on a finite model of orderings and range ends, on MIR",
  "The model has tolerances 0, 1, 2, 60, twice the clock and the maximum, with times around the edges and the ends of i64.")
P("C21", "The flush boundary filter holds events until their flush, losing none",
  "Every telemetry point and log line that arrives is held with those of the same time, holds being in time order; events without a time pass at once. Each new flush ages every hold by one, then emits the events of exactly the holds whose age exceeds the tolerance, in time order, followed by the flush; younger holds stay. A repeated flush changes nothing. At shutdown everything held is emitted, in time order, before the shutdown event.",
  "histories inputs", "Every interleaving of events, flushes and their repetitions.",
  "A lost or early event needs a particular sequence of times, flushes and tolerances.",
  "src/filter/flush_boundary_filter.rs src/filter/mod.rs", [("FlushBoundaryFilter::process", "src/filter/flush_boundary_filter.rs")],
  "iteration-by-iteration path analysis with value provenance; release condition on a finite model, on MIR",
  "All paths between the filter's loop iterations.")
P("C22", "JSON encoding keeps a line's data, the more specific source winning",
  "Every log line becomes exactly one JSON raw event that waits for no acknowledgement, encoding an object in which a key is taken from the first of these that has it: the line's own JSON object when lines are parsed and the line is one, or else the unchanged line under 'message'; the line's fields; and its time, path and tags (the filter's tags filling gaps). Other events pass unchanged. No line is lost for not being JSON.",
  "inputs", "Every line, fields, tags and setting.",
  "Tests use a few lines; precedence errors show only for colliding keys.",
  "src/filter/json_encode_filter.rs", [("JSONEncodeFilter::process, merge_objects", "src/filter/json_encode_filter.rs")],
  "path-by-path value provenance and merge-loop analysis on MIR", "serde_json is external and trusted.")
P("C23", "Scripts act on the event they name, and their mistakes harm nothing else",
  "Each function of the script library acts on exactly the event its index names (from 1, negative from the end), reads or changes only what it is for, with the key and value the script gave, and hands out what it read or replaced, or nil; an index that names no event, or a missing argument, changes nothing and crashes nothing. The filter hands each event alone to the script function of its kind, runs tick once per new flush and passes the flush after what tick made; raw and shutdown events pass unchanged. When the script ends well all it left is emitted, when it fails nothing is, and the failure is reported; the interpreter's stack is left as it was found.",
  "inputs histories", "Every index, argument and sequence of calls a script can make.",
  "Tests run a few scripts with valid indices.",
  "src/filter/programmable_filter.rs", [("script library functions", "PAYLOAD_LIB"), ("process, run_lua_func", "src/filter/programmable_filter.rs")],
  "path enumeration with index conditions on a finite model, value provenance, stack-height analysis, on MIR",
  "What a script itself computes, and the Lua library, are outside.")
P("C24", "Internal telemetry counts every counted event once, under its own name",
  "Every second the internal source reads every counter that is kept, emptying it in one step, and sends what it read as one point under the counter's own name, unless it is zero: counts as sums, states (points stored, buffer lengths) as sets. No counter is left out, none is reported under two names, no two share one. Counting never loses a count to another thread. What is counted is what happened: each statsd packet, graphite line, native and Avro payload, delayed event, JSON line, wavefront, influxdb and elasticsearch delivery and record, prometheus report, and event no queue had room for is added once to the counter named after its outcome.",
  "schedules histories", "Every interleaving of counting and reading; every outcome of what is counted.",
  "Tests do not look at the counters; lost counts need two threads to meet, and wrong ones an outcome that tests do not produce.",
  "src/source/internal.rs src/util.rs src/filter src/sink src/source", [("Internal::run", "src/source/internal.rs"), ("counters", "src/sink/*.rs src/source/*.rs src/filter/*.rs")],
  "effect analysis of atomic counters plus path-by-path comparison of outcome and count, on inlined MIR",
  "Wavefront's and kafka's retries are counted where their collectors add them.")
P("C27", "Prometheus keeps what it is told, per series, and scrapes change nothing",
  "Every point delivered to the Prometheus sink that is not further from now than the configured age - or any point, if none is configured - is aggregated once. A series is a name with a set of tags. A series' first point is kept as it is; a later point of the same kind is added to it exactly once, one of another kind changes nothing and is refused. Summaries are kept as a window of the newest seconds, as many as configured, in order of time, and the series' count and sum grow by every summary's own count and sum. Each flush purges from every window just the summaries further from now than the window is wide. What is reported is every series: the ones kept as they are, the windows as all of their summaries put together with the series' count and sum, unless empty; series of one name stand together. Nothing else, a scrape in particular, changes what is aggregated.",
  "histories schedules", "Every sequence of deliveries, flushes and scrapes; every age and window.",
  "Tests insert random points but do not compare totals, windows, ages or tags, nor scrape between deliveries.",
  "src/sink/prometheus.rs", [("PrometheusAggr, Accumulator, Iter, deliver, handle", "src/sink/prometheus.rs")],
  "path-by-path effect comparison with times and widths on a finite model, and effect inventory, on inlined MIR",
  "A window zero seconds wide, and totals beyond u64 or f64, are not constrained.")
P("C28", "A Prometheus scrape is the exposition of what is held",
  "A scrape writes each reported metric once, as its kind: a counter or gauge as one sample of its sum or value; a histogram as one sample per bin with the bin's upper bound (+Inf for the last) and the number of samples up to it, then sum and count; a summary as one sample for each of the quantiles 0, 1, .25, .5, .75, .9, .95, .99 and .999 with the value there, then sum and count. Each sample carries all of the metric's tags, sink tags included, as labels with backslashes, quotes and newlines in values escaped. A name is written with every character other than letters, digits, colon and underscore replaced by an underscore, and its type is announced exactly once, before its first sample. Unless a write fails nothing that is held is left out. The answer to a scrape is just what was written, as text/plain; version=0.0.4 with status 200, compressed with gzip, and said to be, exactly when the sink is configured to.",
  "inputs", "Every mix of metrics, names, tags (none, one, many) and bins.",
  "Tests compare a few fixed expositions; values that need escaping, names that become the same, and cumulative counts beyond them are not.",
  "src/sink/prometheus.rs", [("write_text, write_tags, write_kv, sanitize", "src/sink/prometheus.rs")],
  "path-by-path text gathering with loops collapsed to repetitions, compared with the format, on inlined MIR; bytes of names on all 256 values",
  "Label names are written as they are, and histogram samples carry no _bucket suffix: the existing tests pin both.")
P("C29", "InfluxDB and Wavefront get every point as the lines of its kind",
  "At a flush the InfluxDB sink writes for each held point the lines of its kind, and the Wavefront sink for each point and each zero point that pads a gap: a sum or set is one line of its value; a histogram one line per bin, named by the bin's upper bound, of the samples in it; a summary one line per percentile (InfluxDB: .25, .5, .75, .9, .99 and 1; Wavefront: those configured, each under its own name) of the value there, and for Wavefront also its count and mean. Each line has the point's name, its own timestamp (in nanoseconds for InfluxDB, in seconds for Wavefront) and all of its tags with the sink's, and nothing of another point. Displayed values may be cached, but what is written is always what the value displays as, whatever the value is.",
  "inputs", "Every batch of points, every value (not-a-number included), every set of tags, bins and percentiles.",
  "Tests compare a few fixed batches in full; a tag buffer not cleared, or a cache that mixes up values, needs a particular order of points.",
  "src/sink/influxdb.rs src/sink/wavefront.rs", [("format_stats, fmt_tags, get_from_cache", "src/sink/influxdb.rs"), ("format_stats, fmt_val, fmt_tags, get_from_cache", "src/sink/wavefront.rs")],
  "path-by-path text gathering with loops collapsed to repetitions, compared with the line formats, on inlined MIR",
  "Names and tags are written as they are: neither sink escapes them, and none is constrained to.")
P("C30", "Tailed files yield whole lines, once, through truncation and replacement",
  "Reading a tailed file delivers each line when its end has been read, without that end and otherwise as it is, and keeps an unfinished line until it is finished or the file is replaced. A file that shrank since the last look is read from its start, and the beginning of a line that is gone is dropped; otherwise nothing is read again. A file is opened anew, from its start, when its end is reached and the path names another file, and is given up only when the path names none. The server sends every line read exactly once, in order, under its file's path, and watches every file its pattern names, each once.",
  "histories faults", "Every interleaving of writes, truncations, replacements and reads.",
  "A line split over two reads or a replacement between two reads needs an exact interleaving.",
  "src/source/file/file_watcher.rs src/source/file/file_server.rs", [("FileWatcher", "src/source/file/file_watcher.rs"), ("FileServer::run", "src/source/file/file_server.rs")],
  "path-by-path effect comparison with the size comparison on a finite model, on MIR",
  "Lines that are not UTF-8 are reported and skipped; a truncation refilled to the same size goes unnoticed, as documented.")
P("C31", "Elasticsearch lines stay buffered until accepted or refused too often",
  "Every line delivered to the Elasticsearch sink is put into its buffer once, unchanged, under an identifier of its own. A flush with something buffered makes one bulk request holding, for every buffered line, an index action with the line's identifier, the configured type and the index of its prefix and day, and a document with the identifier, path, text, time, tags and every field, each on a line of its own. A line leaves the buffer exactly when an item of the response with its identifier accepts it, or refuses it and its refusals, counted one by one, exceed the configured limit; a failed request or response, or an item about no line, changes nothing.",
  "faults histories", "Every response and failure, any buffer contents.",
  "Tests have no Elasticsearch that refuses single items of a bulk request.",
  "src/sink/elasticsearch.rs", [("deliver_line, bulk_body, flush", "src/sink/elasticsearch.rs")],
  "path-by-path effect and value-provenance comparison, with the attempt limit on a finite model, on inlined MIR",
  "The client library and serde_json are external and trusted; tags or fields named like a document's own keys are not constrained.")
P("C35", "Sources listen where told; each connection gets a live, stoppable thread",
  "The statsd source and the TCP sources bind every address of their configured host and port and are woken by each under a token of its own. Each connection accepted is handed once to a handler in a thread of its own, registered with that thread's poller, with all the source's forwards; accepting goes on until none waits, over attempts that were aborted or interrupted. A thread runs its work once, and its poller is woken by its handle's stop signal; joining it waits for its end, stopping it signals first. A pool gives every thread an id of its own and keeps its handle; a thread whose work is done is listed once and the owner told; reaping joins, forgets and returns those listed, joining or stopping the pool takes all.",
  "schedules configurations", "Any number of addresses and connections, in any order of arrivals, ends and stops.",
  "Tests start a source on one address with one or two connections; a shared token, a lost handle or a connection left in the backlog needs several at once.",
  "src/thread.rs src/source/tcp.rs src/util.rs src/source/statsd.rs src/source/graphite.rs src/source/native.rs", [("spawn, ThreadHandle, ThreadPool", "src/thread.rs"), ("TCP::init, run, accept_loop, spawn_stream_handlers", "src/source/tcp.rs"), ("TokenSlab", "src/util.rs"), ("Statsd::init, run", "src/source/statsd.rs")],
  "path-by-path comparison from one turn of each loop to the next, captures of closures matched with their uses, on inlined MIR",
  "mio's poller and the operating system's backlog are trusted; a thread that crashes is reaped only when the pool is stopped.")
P("C36", "The clock events are stamped with follows the wall clock, in seconds",
  "The present time cernan stamps events with starts as the wall clock's whole seconds since the epoch, and while cernan runs it is set to them again, for ever and at least once a second, by nothing else than its ticker, which is running before anything is waited for; what is read is what was set. Every number of seconds is shown as the date it is, or else as the first or the last date there is, without failing.",
  "schedules inputs", "The whole time cernan runs; every number of seconds a peer may send.",
  "Tests are over within one second and read the clock once; times without a date are not sampled.",
  "src/time.rs src/bin/cernan.rs", [("now, update_time, datetime", "src/time.rs"), ("the ticker's thread", "src/bin/cernan.rs")],
  "loop and effect analysis with value provenance on MIR", "How late the operating system wakes the ticker is not bounded.")
P("C25", "Every stage configured runs as the configuration says",
  "Every source, filter and sink that the configuration file has - unless it is switched off or lacks what its kind needs - is handed on to be run, under its own name, and none other. Each of its settings is what the file has under that setting's key, in full, and the kind's default, or for flush intervals the interval configured for all, only when the file does not have it. Tags are all those configured, the environment's variables filled in; flush intervals in seconds become as many pulses as those take.",
  "inputs", "Every configuration file that is accepted.",
  "Tests read some thirty files, mostly with one stage and with one or two of its settings.",
  "src/config.rs", [("parse_config_file, parse_flush_interval", "src/config.rs"), ("parse_config", "src/config.rs")],
  "value provenance through joins, with the look-ups known on each way, on inlined MIR; loop and path analysis", "The defaults themselves, and what the TOML library accepts, are taken as they are.")
P("C37", "Pulses, reports and looks at files come in time, for ever",
  "The flush timer sends every channel it has one pulse after every wait of a pulse's length, for ever; the pulses are numbered from one, one after another, none left out or sent twice. The internal source never waits more than a second before it reports its counters again. The file server's wait between looks at its files grows while nothing is read, up to about two seconds, and starts over once something is; at one look it reads of a file no more than its max_read_bytes and the line that goes beyond, so no file keeps it from the others or from sending what it has read.",
  "schedules histories", "The whole time cernan runs; every number and size of files and lines.",
  "Tests end within seconds and read files of a few lines.",
  "src/source/flush.rs src/source/internal.rs src/source/file/file_server.rs", [("FlushTimer::run", "src/source/flush.rs"), ("Internal::run", "src/source/internal.rs"), ("FileServer::run", "src/source/file/file_server.rs")],
  "loop-carried counter analysis, path by path, on inlined MIR", "How late the operating system wakes a sleeper is not bounded.")
P("C38", "Sinks and stages use the peers and settings they are given",
  "Every setting in a stage's configuration is used, is kept as it was given, and is not changed while the stage runs; a sink with a flush interval is flushed at the one configured. InfluxDB and Elasticsearch are reached over https exactly when secure is set, at the host, port (and database) configured; Kafka's producer is made with every librdkafka setting and the brokers configured, and publishes to the topic configured; Prometheus' exposition is served at the host and port configured and answers every request once until told to stop. The Wavefront and native sinks connect to the host and port configured, trying every address of the host until one accepts; a connection on which a write failed is never written to again, and one that was made is kept.",
  "inputs faults histories", "Every configuration, every address a name resolves to, every history of refused connections and failed writes.",
  "Tests use one configuration each and never lose a connection.",
  "src/sink/influxdb.rs src/sink/elasticsearch.rs src/sink/kafka.rs src/sink/prometheus.rs src/sink/wavefront.rs src/sink/native.rs src/sink/console.rs src/http.rs src/filter/*.rs src/source/*.rs", [("init", "src/sink/*.rs"), ("connect", "src/sink/native.rs"), ("http_server", "src/http.rs")],
  "constructor terms compared with configuration; path enumeration of flush loops on inlined MIR", "What the client libraries do with the address is not analysed.")
P("C39", "Wavefront fills a series' gaps with zeros, and drops what is too old",
  "At a flush the Wavefront sink sends every buffered point once, in order, and between two successive points of a series of a kind it is configured to pad that are two or more spans (a span is the width of a bin) apart, two zeros: one a second after the former, one a second before the latter. The gap between the time last sent for a series in an earlier flush and the first newer point of this flush is filled likewise, once, if another point of the series follows or none at all does. There are no other zeros, none for kinds not configured, and zeros are not padded in turn. The time of each series' last point of a flush is remembered for the flushes after it. A point further from now than the configured age is not buffered, any other is.",
  "histories inputs", "Every sequence of points and flushes, every span, age and choice of kinds.",
  "Tests check a few gaps within one batch and never two flushes in a row; a mark not set or a time not remembered shows in the flush after.",
  "src/sink/wavefront.rs", [("Padding::next, Pad, padding", "src/sink/wavefront.rs"), ("format_stats, deliver", "src/sink/wavefront.rs")],
  "path-by-path effect comparison of the padding iterator on a finite model of queues, times, spans and marks, on inlined MIR",
  "Whether the gap since an earlier flush is filled when the series has one point and others follow is left open. Differences of times beyond i64 are not constrained.")
P("C33", "Retries and idle polls back off, boundedly, and recover",
  "Every loop that retries against a peer or polls an empty queue waits, between one attempt and the next, for a time that grows with the number of consecutive failures, is nothing after none, and is bounded by about half a second. A failure never lowers that number, and success or an event received lowers or resets it. While a connection waits to be acknowledged, the bag of acknowledgements is looked at again after naps that do not shrink and stay within half a second.",
  "faults schedules", "Any sequence of failures and successes.",
  "Tests never fail repeatedly and cannot see a busy loop.",
  "src/time.rs src/sink/influxdb.rs src/sink/wavefront.rs src/sink/native.rs src/sink/mod.rs src/filter/mod.rs src/metric/ackbag.rs", [("waits", "time::delay callers"), ("SyncAckBag::wait_for", "src/metric/ackbag.rs")],
  "loop-carried counter analysis, path by path, on inlined MIR", "All loops that wait with time::delay in sources, filters and sinks, and delay itself.")
