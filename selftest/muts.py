MUTS = []


def M(props, name, *edits, expect="alarm", **k):
    MUTS.append(dict(props=props.split(), name=name, edits=list(edits), expect=expect, **k))


def Q(props, name, *edits, **k):
    M(props, name, *edits, expect="quiet", **k)


SINK, FILT, TCP, FS = "src/sink/mod.rs", "src/filter/mod.rs", "src/source/tcp.rs", "src/source/file/file_server.rs"

# --- C01
M("C01", "tcp forgets pool shutdown", (TCP, "self.handlers.shutdown();\n", ""))
M("C01", "tcp shutdown event before pool", (TCP, "self.handlers.shutdown();\n                                util::send(&mut chans, metric::Event::Shutdown);", "util::send(&mut chans, metric::Event::Shutdown);\n                                self.handlers.shutdown();"), expect="alarm")
M("C01", "thread shutdown joins first", ("src/thread.rs", """        self.shutdown_event
            .set_readiness(mio::Ready::readable())
            .expect("Failed to notify child thread of shutdown!");
        self.join();""", """        let ev = self.shutdown_event.clone();
        self.join();
        ev.set_readiness(mio::Ready::readable())
            .expect("Failed to notify child thread of shutdown!");"""))
M("C01", "join expects", ("src/thread.rs", 'if self.handle.join().is_err() {\n            error!("Child thread crashed before it was joined!");\n        }', 'self.handle.join().expect("x");'))
M("C01", "fileserver shutdown no return", (FS, "send(&mut chans, metric::Event::Shutdown);\n                    return;", "send(&mut chans, metric::Event::Shutdown);"))
M("C01", "graphite handler goes on", ("src/source/graphite.rs", "constants::SYSTEM => return,", "constants::SYSTEM => break,"))
M("C01", "statsd double shutdown", ("src/source/statsd.rs", "send(&mut chans, metric::Event::Shutdown);", "send(&mut chans, metric::Event::Shutdown);send(&mut chans, metric::Event::Shutdown);"))
Q("C01", "tcp stop helper", (TCP, "self.handlers.shutdown();\n                                util::send(&mut chans, metric::Event::Shutdown);\n                                return;", "return self.finish(&mut chans);"),
  (TCP, "    fn spawn_stream_handlers(", "    fn finish(self, chans: &mut util::Channel) {\n        let joined = self.handlers.shutdown();\n        debug!(\"joined {}\", joined.len());\n        util::send(chans, metric::Event::Shutdown);\n    }\n\n    fn spawn_stream_handlers("))
Q("C01", "fileserver if", (FS, """                Ok(0) => {}
                Ok(_num_events) => {""", """                Ok(n) => {
                    if n == 0 { continue; }"""))
Q("C01", "fileserver for_each", (FS, "for l in lines.drain(..) {\n                send(&mut chans, metric::Event::new_log(l));\n            }", "lines.drain(..).for_each(|l| send(&mut chans, metric::Event::new_log(l)));"))
# --- C02
M("C02", "forward each", (FILT, "                    total_shutdowns += 1;\n", "                    total_shutdowns += 1;\n util::send(&mut chans, metric::Event::Shutdown);"))
M("C02", "gt", (FILT, "total_shutdowns >= sources.len()", "total_shutdowns > sources.len()"))
M("C02", "first", (FILT, "total_shutdowns >= sources.len()", "total_shutdowns >= 1"))
M("C02", "err dropped", (FILT, "let event = event_in_fe(fe);\n                        util::send(&mut chans, event);", "let _event = event_in_fe(fe);"))
M("C02", "rev", (FILT, "for ev in events.drain(..) {", "for ev in events.drain(..).rev() {"))
M("C02", "take 32", (FILT, "for ev in events.drain(..) {", "for ev in events.drain(..).take(32) {"))
M("C02", "drain skip first", (FILT, "for ev in events.drain(..) {", "let n = events.len(); for ev in events.drain(..n-1) {"))
M("C02", "skip raw", (FILT, "                Some(event) => {\n                    attempts = 0;", "                Some(metric::Event::Raw { .. }) => attempts = 0,\n                Some(event) => {\n                    attempts = 0;"))
M("C02", "clear on ok", (FILT, "let result = self.process(event, &mut events);\n                    for ev in events.drain(..) {\n                        util::send(&mut chans, ev)\n                    }", "let result = self.process(event, &mut events);\n                    for ev in events.iter() {\n                        util::send(&mut chans, ev.clone())\n                    }"))
M("C02", "none counts", (FILT, "None => attempts += 1,", "None => { attempts += 1; if attempts > 1000 { total_shutdowns += 1; } }"))
Q("C02", "eq and helper", (FILT, "total_shutdowns >= sources.len()", "total_shutdowns == sources.len()"), (FILT, """                    let result = self.process(event, &mut events);
                    for ev in events.drain(..) {
                        util::send(&mut chans, ev)
                    }""", "let result = self.process(event, &mut events);\n forward(&mut events, &mut chans);"), (FILT, "fn msg_in_fe(", """fn forward(evs: &mut Vec<metric::Event>, chans: &mut util::Channel) {
    evs.drain(..).for_each(|ev| util::send(chans, ev));
}

fn msg_in_fe("""))
Q("C02", "lt continue", (FILT, """                    if total_shutdowns >= sources.len() {""", """                    let total = sources.len();
                    if total_shutdowns < total {
                        continue;
                    }
                    {"""))
# --- C03
M("C03", "no break", (SINK, "                            break;\n                        }\n                    },\n                    Valve::Closed", "                        }\n                    },\n                    Valve::Closed"))
M("C03", "closed breaks", (SINK, "self.state.flush();\n                        continue;", "self.state.flush();\n                        break;"))
M("C03", "closed no flush", (SINK, "self.state.flush();\n                        continue;", "continue;"))
M("C03", "idx ge", (SINK, "if idx > last_flush_idx {", "if idx >= last_flush_idx {"))
M("C03", "last not set", (SINK, "last_flush_idx = idx;", "last_flush_idx += 1;"))
M("C03", "last only when flushing", (SINK, "                                        self.state.flush();\n                                    }\n                                }\n                                last_flush_idx = idx;", "                                        self.state.flush();\n                                        last_flush_idx = idx;\n                                    }\n                                }\n"), expect="alarm")
M("C03", "interval none flushes", (SINK, "if let Some(flush_interval) =\n                                    self.state.flush_interval()\n                                {", "let flush_interval = self.state.flush_interval().unwrap_or(1);\n{"))
M("C03", "rem 1", (SINK, "idx % flush_interval == 0", "idx % flush_interval == 1"))
M("C03", "shutdown missing", (SINK, "self.state.shutdown();\n", ""))
M("C03", "raw conn id", (SINK, "metadata,\n                                connection_id,\n                            );", "metadata,\n                                None,\n                            );"))
Q("C03", "helper for pulses", (SINK, """                                if let Some(flush_interval) =
                                    self.state.flush_interval()
                                {
                                    if flush_interval == 0 || idx % flush_interval == 0
                                    {
                                        self.state.flush();
                                    }
                                }
                                last_flush_idx = idx;""", """                                last_flush_idx = idx;
                                Self::pulse(&mut self.state, idx);"""), (SINK, "    fn consume(mut self) {", """    fn pulse(state: &mut S, idx: u64) {
        let due = match state.flush_interval() {
            None => false,
            Some(0) => true,
            Some(n) => idx % n == 0,
        };
        if due {
            state.flush();
        }
    }

    fn consume(mut self) {"""))
# --- C05
U = "src/util.rs"
M("C05", "skip first", (U, "    while let Err(res) = chans[0].send(event) {", "    if max > 3 { return; }\n    while let Err(res) = chans[0].send(event) {"))
M("C05", "slice 2", (U, "&mut chans[1..]", "&mut chans[2..]"))
M("C05", "max gt 1", (U, "if max != 0 {", "if max > 1 {"))
M("C05", "no retry", (U, """                    _ => {
                        snd_event = res.0;
                        continue;
                    }""", """                    _ => {
                        break;
                    }"""))
M("C05", "uncounted", (U, """            hopper::Error::Full => {
                UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                break;""", """            hopper::Error::Full => {
                break;"""))
M("C05", "full retried", (U, """            hopper::Error::Full => {
                UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                break;""", """            hopper::Error::Full => {
                UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                event = res.0;"""))
M("C05", "other event", (U, "let mut snd_event = event.clone();", "let mut snd_event = if max > 7 { metric::Event::Shutdown } else { event.clone() };"))
Q("C05", "one loop", (U, U and """    let max: usize = chans.len().saturating_sub(1);
    if max != 0 {
        for chan in &mut chans[1..] {
            let mut snd_event = event.clone();
            while let Err(res) = chan.send(snd_event) {
                // The are a variety of errors that hopper will signal back up
                // when we do a send. The only one we care about is
                // `Error::Full`, meaning that all disk and memory buffer space
                // is consumed. We drop the event on the floor in that case.
                match res.1 {
                    hopper::Error::Full => {
                        UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                        break;
                    }
                    _ => {
                        snd_event = res.0;
                        continue;
                    }
                }
            }
        }
    }
    while let Err(res) = chans[0].send(event) {
        match res.1 {
            hopper::Error::Full => {
                UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                break;
            }
            _ => {
                event = res.0;
                continue;
            }
        }
    }
}""", """    for chan in chans.iter_mut() {
        send_one(chan, event.clone());
    }
    event = metric::Event::Shutdown;
    drop(event);
}

fn send_one(chan: &mut hopper::Sender<metric::Event>, event: metric::Event) {
    let mut pending = event;
    loop {
        match chan.send(pending) {
            Ok(_) => return,
            Err((_, hopper::Error::Full)) => {
                UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                return;
            }
            Err((ev, _)) => pending = ev,
        }
    }
}"""))
Q("C05", "split", (U, "    let max: usize = chans.len().saturating_sub(1);\n    if max != 0 {\n        for chan in &mut chans[1..] {", "    if chans.len() > 1 {\n        for chan in chans.iter_mut().skip(1) {"))
# --- C04
B = "src/bin/cernan.rs"
M("C04", "limits swapped", (B, """            &config_path,
            &args.data_directory,
            args.max_hopper_in_memory_bytes,
            args.max_hopper_queue_bytes,
            args.max_hopper_queue_files,
        )
        .unwrap();
        senders.insert(config_path.clone(), send);
        receivers.insert(config_path.clone(), recv);
        config_topology.insert(config_path.clone(), Default::default());
    }
    if let Some(ref configs) = args.kafkas {""", """            &config_path,
            &args.data_directory,
            args.max_hopper_in_memory_bytes,
            args.max_hopper_queue_files,
            args.max_hopper_queue_bytes,
        )
        .unwrap();
        senders.insert(config_path.clone(), send);
        receivers.insert(config_path.clone(), recv);
        config_topology.insert(config_path.clone(), Default::default());
    }
    if let Some(ref configs) = args.kafkas {"""))
M("C04", "sinks before sources", (B, "    for (id, source_worker) in sources {", "    join_all(sinks);\n    for (id, source_worker) in sources {"), (B, "    join_all(sinks);\n    join_all(filters);", "    join_all(filters);"))
M("C04", "filters not joined", (B, "    join_all(filters);\n", "    drop(filters);\n"))
M("C04", "flush set misses graphite", (B, """        for (config_path, config) in cfg_map {
            populate_forwards(
                Some(&mut flush_sends),
                &config.forwards,
                &config_path,
                &senders,
                &mut adjacency_matrix,
            );

            let graphite_sends""", """        for (config_path, config) in cfg_map {
            populate_forwards(
                None,
                &config.forwards,
                &config_path,
                &senders,
                &mut adjacency_matrix,
            );

            let graphite_sends"""))
M("C04", "flush skips some", (B, "            let _ = (*tlf).insert(fwd.clone());", "            if tlf.len() < 8 { let _ = (*tlf).insert(fwd.clone()); }"))
M("C04", "unknown forward exits 0", (B, "                    process::exit(1);", "                    process::exit(0);"))
M("C04", "unknown forward of two ok", (B, "                if config_topology.get(forward).is_none() {", "                if config_topology.get(forward).is_none() && forwards.len() == 1 {"))
M("C04", "filter upstream predicate", (B, "|&(_k, option_v)| option_v.is_none(),", "|&(_k, option_v)| option_v.is_some(),"))
M("C04", "one kafka", (B, "        for config in cfgs {\n            let recv", "        for config in cfgs.into_iter().take(1) {\n            let recv"))
M("C04", "elastic misses", (B, "    if let Some(config) = mem::replace(&mut args.elasticsearch, None) {", "    if let (Some(config), true) = (mem::replace(&mut args.elasticsearch, None), args.kafkas.is_none()) {"))
M("C04", "upstreams late", (B, """            let sources = adjacency_matrix.filter_nodes(
                &config.config_path.clone().unwrap(),
                |&(_k, option_v)| option_v.is_none(),
            );
            let downstream_sends = adjacency_matrix.pop_metadata(&config_path);
            filters.insert(
                config.config_path.clone().unwrap(),
                cernan::thread::spawn(move |_poll| {
                    cernan::filter::DelayFilter""", """            let sources = adjacency_matrix.filter_nodes(
                &config.config_path.clone().unwrap(),
                |&(_k, _v)| true,
            );
            let downstream_sends = adjacency_matrix.pop_metadata(&config_path);
            filters.insert(
                config.config_path.clone().unwrap(),
                cernan::thread::spawn(move |_poll| {
                    cernan::filter::DelayFilter"""))
M("C04", "filters before populate", (B, """            populate_forwards(
                None,
                &config.forwards,
                &config_path,
                &senders,
                &mut adjacency_matrix,
            );

            let sources = adjacency_matrix.filter_nodes(
                &config.config_path.clone().unwrap(),
                |&(_k, option_v)| option_v.is_none(),
            );
""", """            let sources = adjacency_matrix.filter_nodes(
                &config.config_path.clone().unwrap(),
                |&(_k, option_v)| option_v.is_none(),
            );
            populate_forwards(
                None,
                &config.forwards,
                &config_path,
                &senders,
                &mut adjacency_matrix,
            );

"""))
M("C04", "sources unsignalled", ("src/thread.rs", """        self.shutdown_event
            .set_readiness(mio::Ready::readable())
            .expect("Failed to notify child thread of shutdown!");
        self.join();""", """        self.join();"""))
M("C04", "graphite edges", (B, """    if let Some(ref configs) = args.graphites {
        for (config_path, config) in configs {
            config_topology.insert(config_path.clone(), config.forwards.clone());
            adjacency_matrix.add_edges(
                &config_path.clone(),
                config.forwards.clone(),
                None,
            );""", """    if let Some(ref configs) = args.graphites {
        for (config_path, config) in configs {
            config_topology.insert(config_path.clone(), config.forwards.clone());"""))
Q("C04", "helper for channels", (B, """        let (send, recv) = hopper::channel_with_explicit_capacity(
            &config.config_path,
            &args.data_directory,
            args.max_hopper_in_memory_bytes,
            args.max_hopper_queue_bytes,
            args.max_hopper_queue_files,
        )
        .unwrap();
        senders.insert(config.config_path.clone(), send);
        receivers.insert(config.config_path.clone(), recv);
""", "        mk(&config.config_path, &args, &mut senders, &mut receivers);\n"), (B, "fn join_all(", """fn mk(
    path: &str,
    args: &cernan::config::Args,
    senders: &mut HashMap<String, hopper::Sender<metric::Event>>,
    receivers: &mut HashMap<String, hopper::Receiver<metric::Event>>,
) {
    let (send, recv) = hopper::channel_with_explicit_capacity(
        path,
        &args.data_directory,
        args.max_hopper_in_memory_bytes,
        args.max_hopper_queue_bytes,
        args.max_hopper_queue_files,
    )
    .unwrap();
    receivers.insert(path.to_string(), recv);
    senders.insert(path.to_string(), send);
}

fn join_all("""))
Q("C04", "validation rewritten", (B, """                if config_topology.get(forward).is_none() {""", """                if !config_topology.contains_key(forward) {"""))
Q("C04", "validation fn", (B, """        for (key, forwards) in &config_topology {
            for forward in forwards {
                if config_topology.get(forward).is_none() {
                    error!(
                        "Unable to fulfill configured forward: {} => {}",
                        key, forward,
                    );
                    process::exit(1);
                }
            }
        }""", """        for (key, forwards) in config_topology.iter() {
            for forward in forwards.iter() {
                match config_topology.get(forward) {
                    Some(_) => continue,
                    None => {
                        error!("Unable to fulfill configured forward: {} => {}", key, forward);
                        process::exit(1);
                    }
                }
            }
        }"""))
Q("C04", "join inline", (B, "    join_all(sinks);\n", "    for (_id, w) in sinks {\n        w.join();\n    }\n"))
Q("C04", "upstream predicate match", (B, "|&(_k, option_v)| option_v.is_none(),", "|&(_k, option_v)| match option_v { Some(_) => false, None => true },"))
Q("C04", "while loop forwards", (B, "    for fwd in forwards {\n        if let Some", "    let mut it = forwards.iter();\n    while let Some(fwd) = it.next() {\n        if let Some"))
# --- C06
X = "src/matrix.rs"
M("C06", "one direction", (X, "            self.add_asymmetric_edge(&to_str, from_str, metadata.clone())\n", ""))
M("C06", "self edge skipped", (X, "        for to_str in to_strs {", "        for to_str in to_strs {\n            if self.edges.contains_key(&to_str) { continue; }"))
M("C06", "swapped", (X, "        let vec = self.edges.entry(from)", "        let (from, to) = if metadata.is_some() { (to, from) } else { (from, to) };\n        let vec = self.edges.entry(from)"))
M("C06", "or_insert only", (X, "        vec.insert(to, metadata);", "        vec.entry(to).or_insert(metadata);"))
M("C06", "pop_nodes filter", (X, "Some(map) => map.into_iter().map(|(k, _v)| k).collect(),", "Some(map) => map.into_iter().filter(|(_k, v)| v.is_none()).map(|(k, _v)| k).collect(),"))
M("C06", "metadata take", (X, "                .map(|(_, some_v)| some_v.unwrap())", "                .map(|(_, some_v)| some_v.unwrap()).take(8)"))
M("C06", "no removal", (X, "        self.edges.remove(id)\n", "        self.edges.get(id).cloned()\n"))
Q("C06", "metadata loop", (X, """            Some(map) => map
                .into_iter()
                .filter(|&(ref _k, ref option_v)| option_v.is_some())
                .map(|(_, some_v)| some_v.unwrap())
                .collect(),
""", """            Some(map) => {
                let mut out = Vec::new();
                for (_k, v) in map {
                    if let Some(m) = v {
                        out.push(m);
                    }
                }
                out
            }
"""))
Q("C06", "metadata filter_map", (X, """                .filter(|&(ref _k, ref option_v)| option_v.is_some())
                .map(|(_, some_v)| some_v.unwrap())
""", """                .filter_map(|(_, v)| v)
"""))
Q("C06", "nodes loop", (X, "Some(map) => map.into_iter().map(|(k, _v)| k).collect(),", "Some(map) => { let mut v = Vec::new(); for (k, _) in map { v.push(k); } v }"))
Q("C06", "edge direct", (X, "        let vec = self.edges.entry(from).or_insert_with(Default::default);\n        vec.insert(to, metadata);", "        self.edges.entry(from).or_default().insert(to, metadata);"))
# --- C08
NAT, INF, WAV = "src/sink/native.rs", "src/sink/influxdb.rs", "src/sink/wavefront.rs"
M("C08", "native clears early", (NAT, "        loop {\n            let mut delivery_failure = false;", "        self.buffer.clear();\n        let mut tries = 0;\n        loop {\n            tries += 1;\n            if tries > 10 { return; }\n            let mut delivery_failure = false;"))
M("C08", "native lines after shutdown", (NAT, "        self.buffer.push(metric::Event::Log(line));", "        if self.stream.is_some() { self.buffer.push(metric::Event::Log(line)); }"))
M("C08", "native shutdown no flush", (NAT, "    fn shutdown(mut self) {\n        self.flush();", "    fn shutdown(mut self) {\n        if self.stream.is_some() { self.flush(); }"))
M("C08", "native unflushed", (NAT, "if res.is_ok() && bufwrite.flush().is_ok() {", "if res.is_ok() {"))
M("C08", "influx client error drops", (INF, "                        INFLUX_FAILURE_CLIENT.fetch_add(1, Ordering::Relaxed);\n", "                        INFLUX_FAILURE_CLIENT.fetch_add(1, Ordering::Relaxed);\n                        break;\n"))
M("C08", "influx clears buffer on server error", (INF, "                        INFLUX_FAILURE_SERVER.fetch_add(1, Ordering::Relaxed);\n", "                        INFLUX_FAILURE_SERVER.fetch_add(1, Ordering::Relaxed);\n                        buffer.clear();\n"))
M("C08", "influx keeps points", (INF, "        self.aggrs.clear();\n    }", "        if self.delivery_attempts == 0 { self.aggrs.clear(); }\n    }"))
M("C08", "wavefront write", (WAV, "stream.write_all(self.stats.as_bytes())", "stream.write(self.stats.as_bytes())"))
M("C08", "wavefront format in loop", (WAV, "        self.format_stats();\n        loop {", "        loop {\n            self.format_stats();"))
M("C08", "wavefront stats kept", (WAV, "                    self.aggrs.reset();\n                    self.stats.clear();", "                    self.aggrs.reset();"))
Q("C08", "native nested if", (NAT, "                if res.is_ok() && bufwrite.flush().is_ok() {\n                    self.buffer.clear();\n                    return;\n                } else {", "                let sent = match res {\n                    Ok(()) => bufwrite.flush().is_ok(),\n                    Err(_) => false,\n                };\n                if sent {\n                    self.buffer.clear();\n                    return;\n                } else {"))
Q("C08", "influx helper", (INF, """                        INFLUX_FAILURE_SERVER.fetch_add(1, Ordering::Relaxed);
                    } else {
                        self.delivery_attempts =
                            self.delivery_attempts.saturating_add(1);
                    }""", """                        INFLUX_FAILURE_SERVER.fetch_add(1, Ordering::Relaxed);
                    } else {
                        self.failed();
                    }"""), (INF, "impl InfluxDB {\n", "impl InfluxDB {\n    fn failed(&mut self) {\n        self.delivery_attempts = self.delivery_attempts.saturating_add(1);\n    }\n"))
Q("C08", "wavefront match", (WAV, "                let res = stream.write_all(self.stats.as_bytes());\n                if res.is_ok() {", "                if let Ok(()) = stream.write_all(self.stats.as_bytes()) {"))
# --- C33
M("C33", "influx no delay", (INF, "            time::delay(self.delivery_attempts);\n", "            if self.delivery_attempts > 9 { time::delay(self.delivery_attempts); }\n"))
M("C33", "influx other status", (INF, """                    } else {
                        self.delivery_attempts =
                            self.delivery_attempts.saturating_add(1);
                    }""", """                    } else {
                        self.delivery_attempts = 0;
                    }"""))
M("C33", "delay zero", ("src/time.rs", "        0 => return,\n        1 => 1,", "        0 => 1,\n        1 => 1,"))
M("C33", "delay order", ("src/time.rs", "        8 => 256,", "        8 => 25,"))
M("C33", "sink never resets", (SINK, "            attempts = 0;\n", ""))
M("C33", "filter attempts stuck", (FILT, "None => attempts += 1,", "None => attempts = 1,"))
M("C33", "wavefront failure resets", (WAV, "                    WAVEFRONT_DELIVERY_FAILURE.fetch_add(1, Ordering::Relaxed);\n                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);", "                    WAVEFRONT_DELIVERY_FAILURE.fetch_add(1, Ordering::Relaxed);\n                    self.delivery_attempts = 0;"))
Q("C33", "influx hoisted", (INF, """                        self.delivery_attempts =
                            self.delivery_attempts.saturating_add(1);
                        INFLUX_FAILURE_CLIENT.fetch_add(1, Ordering::Relaxed);""", """                        INFLUX_FAILURE_CLIENT.fetch_add(1, Ordering::Relaxed);
                        let next = self.delivery_attempts.saturating_add(1);
                        self.delivery_attempts = next;"""))
Q("C33", "delay table", ("src/time.rs", "        0 => return,\n        1 => 1,", "        0 => return,\n        1 => 1u64,"), ("src/time.rs", "from_millis(delay as u64)", "from_millis(delay)"))
# --- C15
TEL = "src/metric/telemetry.rs"
M("C15", "sum of sum drops", (TEL, "Value::Sum(y) => Value::Sum(sum + y),", "Value::Sum(y) => Value::Sum(y),"))
M("C15", "quantiles sum", (TEL, "                    ckms += rhs;\n                    sum += rhs_sum;", "                    ckms += rhs;\n                    sum = rhs_sum;"))
M("C15", "set keeps old", (TEL, "                Value::Set(y) => Value::Set(y),\n                Value::Sum(y) => Value::Sum(x + y),", "                Value::Set(y) => Value::Set(if y.is_nan() { x } else { y }),\n                Value::Sum(y) => Value::Sum(x + y),"))
M("C15", "sample lost", (TEL, "                Value::Histogram(mut y) => {\n                    y.insert(x);", "                Value::Histogram(mut y) => {\n                    if y.count() > 0 { y.insert(x); }"))
M("C15", "persist or", (TEL, "self.persist = rhs.persist;", "self.persist = self.persist || rhs.persist;"))
Q("C15", "add free fn", (TEL, "        self.value = Some(value.unwrap().add(rhs.value.unwrap()));", "        let (l, r) = (value.unwrap(), rhs.value.unwrap());\n        self.value = Some(l + r);"))
Q("C15", "extend", (TEL, "                    for v in ckms.into_vec() {\n                        y.insert(v);\n                    }", "                    let samples = ckms.into_vec();\n                    let mut it = samples.into_iter();\n                    while let Some(v) = it.next() {\n                        y.insert(v);\n                    }"))
# --- C16
M("C16", "error bound", (TEL, "if error >= 1.0 {", "if error > 1.0 {"))
M("C16", "summarize persist", (TEL, "                        ckms.insert(iv);\n                        Value::Quantiles { ckms, sum: iv }", "                        Value::Quantiles { ckms, sum: iv }"))
M("C16", "thaw timestamp", (TEL, "            timestamp: Some(self.timestamp),\n            tags: self.tags,\n            persist: Some(self.persist),", "            timestamp: Some(self.timestamp),\n            tags: self.tags,\n            persist: None,"))
M("C16", "default kind", (TEL, "            AggregationMethod::Set\n        };\n        let timestamp", "            AggregationMethod::Sum\n        };\n        let timestamp"))
Q("C16", "unwrap_or", (TEL, """        let persist = if let Some(persist) = self.persist {
            persist
        } else {
            false
        };""", "        let persist = self.persist.unwrap_or(false);"), (TEL, """        let kind = if let Some(kind) = self.kind {
            kind
        } else {
            AggregationMethod::Set
        };""", "        let kind = self.kind.unwrap_or(AggregationMethod::Set);"))
Q("C16", "no name match", (TEL, """        let name = if let Some(name) = self.name {
            name
        } else {
            return Err(Error::NoName);
        };""", """        let name = match self.name {
            None => return Err(Error::NoName),
            Some(n) => n,
        };"""))
Q("C16", "timestamp unwrap_or_else", (TEL, """        let timestamp = if let Some(timestamp) = self.timestamp {
            timestamp
        } else {
            time::now()
        };""", "        let timestamp = self.timestamp.unwrap_or_else(time::now);"))
# --- C17
MM = "src/metric/mod.rs"
M("C17", "defaults shadow", (MM, "                    seen_keys.insert(k.to_string());\n                    return Some((k, v));\n                } else {", "                    return Some((k, v));\n                } else {"))
M("C17", "value for key", (MM, "seen_keys.insert(k.to_string()) {", "seen_keys.insert(v.to_string()) {"))
M("C17", "stop early", (MM, "                        if seen_keys.insert(k.to_string()) {\n                            return Some((k, v));\n                        }", "                        if seen_keys.insert(k.to_string()) {\n                            return Some((k, v));\n                        }\n                        return None;"))
M("C17", "get_from_tags", (TEL, "                Some(v) => Some(v),\n                None => defaults.get(key),", "                Some(v) => Some(v),\n                None => None,"))
Q("C17", "loop rewritten", (MM, """                if *iters_exhausted {
                    if let Some((k, v)) = defaults.next() {
                        if seen_keys.insert(k.to_string()) {
                            return Some((k, v));
                        }
                    } else {
                        return None;
                    }
                } else if let""", """                if *iters_exhausted {
                    match defaults.next() {
                        None => return None,
                        Some((k, v)) => {
                            if !seen_keys.insert(k.clone()) {
                                continue;
                            }
                            return Some((k, v));
                        }
                    }
                } else if let"""))
Q("C17", "get or_else", (TEL, """            match tags.get(key) {
                Some(v) => Some(v),
                None => defaults.get(key),
            }
        } else {""", """            tags.get(key).or_else(|| defaults.get(key))
        } else {"""))
# --- C18
BK = "src/buckets.rs"
M("C18", "carry non persisted", (BK, "if value.persist && idx > 0 {", "if idx > 0 {"))
M("C18", "carry next", (BK, "let mut cur: Telemetry = hsh[idx - 1]", "let mut cur: Telemetry = hsh[idx.min(hsh.len() - 1)]"))
M("C18", "count on update", (BK, "            Ok(idx) => hsh[idx] += value,", "            Ok(idx) => {\n                self.count = self.count.saturating_add(1);\n                hsh[idx] += value\n            }"))
M("C18", "reset count", (BK, "                self.count = self.count.saturating_add(1);\n            } else {", "            } else {"))
M("C18", "reset first", (BK, "                v.swap(0, len - 1);\n", ""))
M("C18", "bin width one", (BK, "let bin_width = self.bin_width;", "let bin_width = self.bin_width.max(2);"))
M("C18", "iter skips", (BK, "                self.key_index += 1;\n            }", "                self.key_index += 1;\n                if self.key_index > 65_536 { return None; }\n            }"))
Q("C18", "reset match", (BK, "            if v[len - 1].persist {\n                v.swap(0, len - 1);\n                v.truncate(1);\n                v[0].timestamp = time::now();\n                self.count = self.count.saturating_add(1);\n            } else {\n                v.clear()\n            }", "            if !v[len - 1].persist {\n                v.clear();\n                continue;\n            }\n            v.swap(0, len - 1);\n            v.truncate(1);\n            v[0].timestamp = time::now();\n            self.count = self.count.saturating_add(1);"))
Q("C18", "add key var", (BK, """            probe.partial_cmp(&value.name_tag_hash()).unwrap()
        }) {""", """            probe.cmp(&value.name_tag_hash())
        }) {"""))
Q("C18", "insert common", (BK, "                    cur += value;\n                    hsh.insert(idx, cur)", "                    let rhs = value;\n                    cur += rhs;\n                    hsh.insert(idx, cur)"))
# --- C19
M("C19", "unsorted", (MM, "    pairs.sort();\n", "    if pairs.len() > 2 { pairs.sort(); }\n"))
M("C19", "kind in name_tag", (TEL, "        }\n        hasher.finish()\n    }\n\n    /// Returns true if aggregation method is SET", "        }\n        self.kind().hash(&mut hasher);\n        hasher.finish()\n    }\n\n    /// Returns true if aggregation method is SET"))
M("C19", "values unhashed", (TEL, "            v.hash(&mut hasher);\n        }\n        self.kind()", "        }\n        self.kind()"))
M("C19", "within tags last", (TEL, "Some(cmp::Ordering::Equal) => match cmp_tagmap(&self.tags, &other.tags) {", "Some(cmp::Ordering::Equal) => match self.timestamp.partial_cmp(&other.timestamp) {"))
M("C19", "within mod", (TEL, "let rhs_bin = other.timestamp / span;", "let rhs_bin = other.timestamp / span.max(1);"))
M("C19", "order swapped", (TEL, "Some(cmp::Ordering::Equal) => cmp_tagmap(&self.tags, &other.tags),", "Some(cmp::Ordering::Equal) => cmp_tagmap(&other.tags, &self.tags),"))
M("C19", "length swapped", (MM, "        l.len().partial_cmp(&r.len())", "        r.len().partial_cmp(&l.len())"))
M("C19", "length ignored", (MM, "    if l.len() != r.len() {", "    if l.len() < r.len() {"))
Q("C19", "cmp", (TEL, "                    lhs_bin.cmp(&rhs_bin)\n                }\n                other => other.unwrap(),\n            },\n            other => other.unwrap(),", "                    lhs_bin.cmp(&rhs_bin)\n                }\n                Some(x) => x,\n                None => unreachable!(),\n            },\n            other => other.unwrap(),"))
Q("C19", "early return", (TEL, "        match self.name.partial_cmp(&other.name) {\n            Some(cmp::Ordering::Equal) => {\n                match self.timestamp", "        if self.name != other.name {\n            return self.name.partial_cmp(&other.name);\n        }\n        match self.name.partial_cmp(&other.name) {\n            Some(cmp::Ordering::Equal) => {\n                match self.timestamp"))
Q("C19", "hash helper", (TEL, """        self.name.hash(&mut hasher);
        for (k, v) in sorted_tags(&self.tags) {
            k.hash(&mut hasher);
            v.hash(&mut hasher);
        }
        self.kind().hash(&mut hasher);
        hasher.finish()
    }
""", """        self.feed(&mut hasher);
        self.kind().hash(&mut hasher);
        hasher.finish()
    }

    fn feed(&self, hasher: &mut hash_map::DefaultHasher) {
        self.name.hash(hasher);
        for pair in sorted_tags(&self.tags).iter() {
            pair.0.hash(hasher);
            pair.1.hash(hasher);
        }
    }
"""))
Q("C19", "whole pairs", (TEL, """        for (k, v) in sorted_tags(&self.tags) {
            k.hash(&mut hasher);
            v.hash(&mut hasher);
        }
        hasher.finish()
    }

    /// Returns true""", """        for pair in sorted_tags(&self.tags) {
            pair.hash(&mut hasher);
        }
        hasher.finish()
    }

    /// Returns true"""))
Q("C17", "overlay extend", (TEL, """            for (k, v) in map.iter() {
                tags.insert(k.clone(), v.clone());
            }""", "            tags.extend(map.iter().map(|(k, v)| (k.clone(), v.clone())));"))
Q("C17", "overlay extend clone", (TEL, """            for (k, v) in map.iter() {
                tags.insert(k.clone(), v.clone());
            }""", "            tags.extend(map.clone());"))
M("C18", "kept in the future", (BK, "v[0].timestamp = time::now();", "v[0].timestamp = v[0].timestamp.max(time::now());"))
# --- C20
DF, FB = "src/filter/delay_filter.rs", "src/filter/flush_boundary_filter.rs"
M("C20", "future accepted", (DF, "0i64.saturating_sub(self.tolerance) <= age && age <= self.tolerance", "age <= self.tolerance"))
M("C20", "strict", (DF, "age <= self.tolerance", "age < self.tolerance"))
M("C20", "overflow", (DF, "time::now().saturating_sub(timestamp)", "time::now().wrapping_sub(timestamp)"))
M("C20", "log dropped at edge", (DF, "if self.timely(log.time) {", "if self.timely(log.time) && log.time > 0 {"))
M("C20", "raw dropped", (DF, "            ev => {\n                res.push(ev);", "            metric::Event::Raw { .. } => {}\n            ev => {\n                res.push(ev);"))
Q("C20", "abs", (DF, "        0i64.saturating_sub(self.tolerance) <= age && age <= self.tolerance", "        age > i64::min_value() && age.abs() <= self.tolerance"))
Q("C20", "negated", (DF, """                if self.timely(telem.timestamp) {
                    DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                    res.push(metric::Event::Telemetry(telem));
                } else {
                    DELAY_TELEM_REJECT.fetch_add(1, Ordering::Relaxed);
                }""", """                if !self.timely(telem.timestamp) {
                    DELAY_TELEM_REJECT.fetch_add(1, Ordering::Relaxed);
                    return Ok(());
                }
                DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                res.push(metric::Event::Telemetry(telem));"""))
Q("C20", "two ifs", (DF, "        0i64.saturating_sub(self.tolerance) <= age && age <= self.tolerance", "        if age < 0i64.saturating_sub(self.tolerance) {\n            return false;\n        }\n        !(age > self.tolerance)"))
# --- C21
M("C21", "tolerance ge", (FB, "if hold.age > self.tolerance {", "if hold.age >= self.tolerance {"))
M("C21", "untimed held back", (FB, "                // There's no telling which flush this belongs to.\n                res.push(event);", ""))
M("C21", "flush first", (FB, "            let mut too_new = Vec::new();", "            res.push(event);\n            let mut too_new = Vec::new();"), (FB, "            res.push(event);\n            self.holds = too_new;", "            self.holds = too_new;"))
M("C21", "stops at first young", (FB, "                    too_new.push(hold);\n", "                    too_new.push(hold);\n                    if self.tolerance == 0 { break; }\n"))
M("C21", "wrong place", (FB, "self.holds.insert(idx, hold)", "self.holds.push(hold)"))
M("C21", "restart age", (FB, "Ok(idx) => self.holds[idx].events.push(event),", "Ok(idx) => {\n                        self.holds[idx].age = 0;\n                        self.holds[idx].events.push(event)\n                    }"), expect="alarm")
M("C21", "last event of hold", (FB, "                    res.append(&mut hold.events);\n                } else {", "                    res.extend(hold.events.drain(..1));\n                } else {"))
M("C21", "idx not remembered", (FB, "            self.last_flush_idx = flush_idx;\n", "            if flush_idx > 1 { self.last_flush_idx = flush_idx; }\n"))
M("C21", "reversed search", (FB, "hold.timestamp.cmp(&ts)", "ts.cmp(&hold.timestamp)"))
Q("C21", "aging in release", (FB, """            for hold in &mut self.holds {
                hold.age += 1;
            }
""", ""), (FB, "            for mut hold in holds {\n", "            for mut hold in holds {\n                hold.age += 1;\n"))
Q("C21", "extend", (FB, "                    res.append(&mut hold.events);\n                } else {", "                    res.extend(hold.events);\n                } else {"), (FB, "for mut hold in holds {\n                if", "for hold in holds {\n                if"))
Q("C21", "helper", (FB, "            for hold in &mut self.holds {\n                hold.age += 1;\n            }\n", "            self.older();\n"), (FB, "impl FlushBoundaryFilter {\n", "impl FlushBoundaryFilter {\n    fn older(&mut self) {\n        self.holds.iter_mut().for_each(|h| h.age += 1);\n    }\n\n"))
Q("C21", "match ts", (FB, "            let opt_ts = event.timestamp();\n            if let Some(ts) = opt_ts {\n                match", "            if let Some(ts) = event.timestamp() {\n                let found ="), (FB, "self.holds.binary_search_by(|hold| hold.timestamp.cmp(&ts)) {\n", "self.holds.binary_search_by(|hold| hold.timestamp.cmp(&ts));\n                match found {\n"))
Q("C21", "drain replace", (FB, "for mut hold in self.holds.drain(..) {", "for mut hold in mem::replace(&mut self.holds, Vec::new()) {"))
Q("C21", "by key", (FB, "binary_search_by(|hold| hold.timestamp.cmp(&ts))", "binary_search_by_key(&ts, |hold| hold.timestamp)"))
# --- C22
JE = "src/filter/json_encode_filter.rs"
M("C22", "metadata first", (JE, """                    value,
                    Map::from_iter(log.fields.into_iter().map(|(k, v)| (k, v.into()))),
                    metadata,""", """                    metadata,
                    value,
                    Map::from_iter(log.fields.into_iter().map(|(k, v)| (k, v.into()))),"""))
M("C22", "no tags", (JE, 'log.tags(&self.tags)', 'log.tags(&metric::TagMap::default())'))
M("C22", "non objects dropped", (JE, ".and_then(|_| serde_json::from_str::<Value>(&log.value).ok())", ".and_then(|_| serde_json::from_str::<Value>(log.value.trim_matches('\"')).ok())"))
M("C22", "trimmed", (JE, 'json!({"message": log.value.clone()})', 'json!({"message": log.value.trim()})'))
M("C22", "last wins", (JE, "if !result.contains_key(&key) {", "if !key.is_empty() {"))
M("C22", "null skipped", (JE, "if !result.contains_key(&key) {", "if !value.is_null() && !result.contains_key(&key) {"))
M("C22", "first two objects", (JE, "for obj in objs {", "for obj in objs.into_iter().take(2) {"))
M("C22", "field keys lowered", (JE, "map(|(k, v)| (k, v.into()))", "map(|(k, v)| (k.to_lowercase(), v.into()))"))
M("C22", "empty lines", (JE, "            metric::Event::Log(log) => {\n", "            metric::Event::Log(log) => {\n                if log.value.is_empty() && log.fields.is_empty() {\n                    return Ok(());\n                }\n"))
Q("C22", "entry", (JE, "            if !result.contains_key(&key) {\n                result.insert(key, value);\n            }\n", "            result.entry(key).or_insert(value);\n"))
Q("C22", "entry wrong", (JE, "use serde_json::map::Map;\nuse serde_json::Value;\nuse std::iter", "use serde_json::Value;\nuse serde_json::map::Map;\nuse std::iter"))
Q("C22", "match", (JE, """                let value = (if self.parse_line { Some(()) } else { None })
                    .and_then(|_| serde_json::from_str::<Value>(&log.value).ok())
                    .and_then(|v| {
                        if let Value::Object(obj) = v {
                            Some(obj)
                        } else {
                            None
                        }
                    })
                    .map(|v| {
                        JSON_ENCODE_LOG_PARSED.fetch_add(1, Ordering::Relaxed);
                        v
                    })
                    .unwrap_or_else(|| {
                        json_to_object(json!({"message": log.value.clone()}))
                    });""", """                let mut parsed = None;
                if self.parse_line {
                    if let Ok(Value::Object(obj)) = serde_json::from_str::<Value>(&log.value) {
                        JSON_ENCODE_LOG_PARSED.fetch_add(1, Ordering::Relaxed);
                        parsed = Some(obj);
                    }
                }
                let value = match parsed {
                    Some(obj) => obj,
                    None => {
                        let mut m = Map::new();
                        m.insert("message".to_string(), log.value.clone().into());
                        m
                    }
                };"""))
Q("C22", "loops", (JE, "                    Map::from_iter(log.fields.into_iter().map(|(k, v)| (k, v.into()))),\n", "                    fields,\n"), (JE, "                // Combine our various", "                let mut fields = Map::new();\n                for (k, v) in log.fields {\n                    fields.insert(k, Value::String(v));\n                }\n                // Combine our various"))
Q("C22", "fold", (JE, """    let mut result = Map::new();
    for obj in objs {
        for (key, value) in obj {
            if !result.contains_key(&key) {
                result.insert(key, value);
            }
        }
    }
    result""", """    let mut result = Map::new();
    let mut it = objs.into_iter();
    while let Some(obj) = it.next() {
        obj.into_iter().for_each(|(key, value)| {
            if result.contains_key(&key) {
                return;
            }
            result.insert(key, value);
        });
    }
    result"""))
Q("C22", "rev", (JE, """    for obj in objs {
        for (key, value) in obj {
            if !result.contains_key(&key) {
                result.insert(key, value);
            }
        }
    }""", """    for obj in objs.into_iter().rev() {
        for (key, value) in obj {
            result.insert(key, value);
        }
    }"""))
# --- C23
PF = "src/filter/programmable_filter.rs"
M("C23", "negative idx", (PF, "if n < 0 { n + (top as i64) }", "if n < -1 { n + (top as i64) }"))
M("C23", "idx zero", (PF, "    if 0 <= place && place < (top as i64) {", "    if -1 <= place && place < (top as i64) {"))
M("C23", "idx top", (PF, "place < (top as i64)", "place <= (top as i64)"))
M("C23", "old quantile", (PF, "let prcnt = state.to_number(3);", "let prcnt = state.to_number(2);"))
M("C23", "logs len", (PF, "fn lua_log_field_value(L: *mut lua_State) -> c_int {\n        let mut state = State::from_ptr(L);\n        let pyld = state.to_userdata(1) as *mut Payload;\n        let idx = match idx(state.to_integer(2), (*pyld).logs.len())", "fn lua_log_field_value(L: *mut lua_State) -> c_int {\n        let mut state = State::from_ptr(L);\n        let pyld = state.to_userdata(1) as *mut Payload;\n        let idx = match idx(state.to_integer(2), (*pyld).metrics.len())"))
M("C23", "swapped table", (PF, '("clear_logs", Some(Payload::lua_clear_logs))', '("clear_logs", Some(Payload::lua_clear_metrics))'))
M("C23", "no set_top", (PF, "        .to_owned();\n        state.set_top(top);", "        .to_owned();"))
M("C23", "emit on failure", (PF, "    let status = state.pcall(1, 0, 0); // 1 arg, 0 return values, no error handler func\n    if let ThreadStatus::Ok = status {\n        for lg in pyld.logs {\n            res.push(metric::Event::new_log(*lg));\n        }\n", "    let status = state.pcall(1, 0, 0); // 1 arg, 0 return values, no error handler func\n    for lg in pyld.logs {\n        res.push(metric::Event::new_log(*lg));\n    }\n    if let ThreadStatus::Ok = status {\n"))
M("C23", "tick twice", (PF, "if self.last_flush_idx >= flush_idx =>", "if self.last_flush_idx > flush_idx =>"))
M("C23", "flush before tick", (PF, '                let result = run_lua_func(&mut self.state, "tick", res, pyld);', '                res.push(metric::Event::TimerFlush(flush_idx));\n                let result = run_lua_func(&mut self.state, "tick", res, pyld);'), (PF, "                res.push(event);\n                result", "                result"))
M("C23", "flush lost on failure", (PF, "                res.push(event);\n                result", "                if result.is_ok() {\n                    res.push(event);\n                }\n                result"))
M("C23", "no global tags", (PF, "                    .harden()\n                    .unwrap()\n                    .overlay_tags_from_map((*pyld).global_tags);", "                    .harden()\n                    .unwrap();"))
M("C23", "set tag returns none", (PF, "match (*pyld).logs[idx].fields.insert(key, val) {\n                    Some(old_v) => {\n                        state.push_string(&old_v);", "match (*pyld).logs[idx].fields.insert(key, val) {\n                    Some(_) => {\n                        state.push_nil();"))
M("C23", "first metric only", (PF, "        for mt in pyld.metrics {\n", "        for mt in pyld.metrics.into_iter().take(1) {\n"))
M("C23", "wrong count", (PF, '                error!("[set_metric_name] no such metric");\n                return 0;', '                error!("[set_metric_name] no such metric");\n                return 1;'))
Q("C23", "checked add", (PF, """    let place = if n < 0 { n + (top as i64) } else { n - 1 };
    if 0 <= place && place < (top as i64) {
        Some(place as usize)
    } else {
        None
    }""", """    let top = top as i64;
    if n == 0 || n > top || n < -top {
        return None;
    }
    if n < 0 {
        Some((top + n) as usize)
    } else {
        Some((n - 1) as usize)
    }"""))
Q("C23", "if let", (PF, """        let idx = match idx(state.to_integer(2), (*pyld).logs.len()) {
            Some(idx) => idx,
            None => {
                error!("[log_value] no such log");
                state.push_nil();
                return 1;
            }
        };
        state.push_string(&(*pyld).logs[idx].value);
        1""", """        if let Some(idx) = idx(state.to_integer(2), (*pyld).logs.len()) {
            let log = &(*pyld).logs[idx];
            state.push_string(&log.value);
        } else {
            error!("[log_value] no such log");
            state.push_nil();
        }
        1"""))
Q("C23", "helper", (PF, """        match (*pyld).metrics[idx].query(prcnt) {
            Some(v) => {
                state.push_number(v);
            }
            None => {
                state.push_nil();
            }
        }
        1
    }
}
""", """        push_opt(&mut state, (*pyld).metrics[idx].query(prcnt));
        1
    }
}

fn push_opt(state: &mut State, v: Option<f64>) {
    if let Some(v) = v {
        state.push_number(v);
    } else {
        state.push_nil();
    }
}
"""))
Q("C23", "pop one", (PF, "        state.set_top(top);\n        return Err", "        state.pop(1);\n        return Err"))
Q("C23", "extend", (PF, "        for lg in pyld.logs {\n            res.push(metric::Event::new_log(*lg));\n        }\n", "        res.extend(pyld.logs.into_iter().map(|lg| metric::Event::new_log(*lg)));\n"))
Q("C23", "early return", (PF, """    if let ThreadStatus::Ok = status {
        for lg in pyld.logs {
            res.push(metric::Event::new_log(*lg));
        }
        for mt in pyld.metrics {
            res.push(metric::Event::new_telemetry(*mt));
        }
        Ok(())
    } else {
        let error""", """    if status == ThreadStatus::Ok {
        for mt in pyld.metrics {
            res.push(metric::Event::new_telemetry(*mt));
        }
        for lg in pyld.logs {
            res.push(metric::Event::new_log(*lg));
        }
        Ok(())
    } else {
        let error"""))
Q("C23", "flush if else", (PF, """            metric::Event::TimerFlush(flush_idx)
                if self.last_flush_idx >= flush_idx =>
            {
                Ok(())
            }
            metric::Event::TimerFlush(flush_idx) => {
                let pyld""", """            metric::Event::TimerFlush(flush_idx) => {
                if flush_idx <= self.last_flush_idx {
                    return Ok(());
                }
                let pyld"""))
# --- C30
FW, FV = "src/source/file/file_watcher.rs", "src/source/file/file_server.rs"
M("C30", "partial delivered", (FW, "                    } else {\n                        Ok(0)\n                    }\n                }\n                Err(e) => {\n                    if let", "                    } else {\n                        take_line(&mut self.partial, buffer)\n                    }\n                }\n                Err(e) => {\n                    if let"))
M("C30", "crlf", (FW, "                        self.partial.pop();\n", "                        self.partial.pop();\n                        if self.partial.last() == Some(&b'\\r') {\n                            self.partial.pop();\n                        }\n"))
M("C30", "no truncation for small", (FW, "if self.previous_size > current_size {", "if self.previous_size > current_size && current_size > 0 {"))
M("C30", "equal is truncated", (FW, "if self.previous_size > current_size {", "if self.previous_size >= current_size && self.previous_size > 0 {"))
M("C30", "size not remembered", (FW, "            self.previous_size = current_size;\n            // match", "            self.previous_size = self.previous_size.max(current_size);\n            // match"))
M("C30", "inode only", (FW, "                    if file_id(&self.path) != self.file_id {", "                    if file_id(&self.path).map(|i| i.1) != self.file_id.map(|i| i.1) {"))
M("C30", "partial kept on truncation", (FW, "                assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());\n                self.partial.clear();", "                assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());"))
M("C30", "replaced loses tail", (FW, "                        return take_line(&mut self.partial, buffer);", "                        self.partial.clear();\n                        return Ok(0);"))
M("C30", "reopen when gone only", (FW, "if file_id(&self.path) != self.file_id {", "if file_id(&self.path).is_none() {"))
M("C30", "open at end", (FW, "            self.reader = Some(io::BufReader::new(f));\n            if", "            let mut rdr = io::BufReader::new(f);\n            let _ = rdr.seek(io::SeekFrom::End(0));\n            self.reader = Some(rdr);\n            if"))
M("C30", "old size", (FW, "            self.previous_size = metadata.size();\n", ""))
M("C30", "reopen forever", (FW, "        self.reopen = false;\n    }", "        self.reopen = self.reader.is_none();\n    }"))
M("C30", "dead one", (FW, "self.reader.is_none() && self.file_id.is_none()", "self.reader.is_none() || self.file_id.is_none()"), expect="quiet")
M("C30", "buffer kept", (FV, "                        buffer.clear();\n", ""))
M("C30", "wrong path", (FV, """                        lines.push(metric::LogLine::new(
                            path.to_str().expect("not a valid path"),""", """                        lines.push(metric::LogLine::new(
                            self.pattern.to_str().expect("not a valid path"),"""))
M("C30", "limit before push", (FV, """                        bytes_read += sz;
""", """                        bytes_read += sz;
                        if bytes_read > self.max_read_bytes {
                            break;
                        }
"""))
M("C30", "always forget", (FV, "                if !watcher.dead() {", "                if !watcher.dead() && bytes_read > 0 {"))
M("C30", "rewatch", (FV, """                    let entry = fp_map.entry(path.clone());
                    if let Ok(fw) = FileWatcher::new(&path) {
                        entry.or_insert(fw);
                    };""", """                    if let Ok(fw) = FileWatcher::new(&path) {
                        fp_map.insert(path, fw);
                    };"""))
M("C30", "one line a round", (FV, "            for l in lines.drain(..) {", "            for l in lines.drain(..).take(1_000) {"))
M("C30", "no swap", (FV, "            mem::swap(&mut fp_map, &mut fp_map_alt);\n", "            if global_bytes_read > 0 {\n                mem::swap(&mut fp_map, &mut fp_map_alt);\n            }\n"))
Q("C30", "ends_with", (FW, "if self.partial.last() == Some(&b'\\n') {", "if self.partial.ends_with(&[b'\\n']) {"))
Q("C30", "size first", (FW, "if self.previous_size > current_size {", "if current_size < self.previous_size {"))
Q("C30", "match end", (FW, """                Ok(0) => {
                    if file_id(&self.path) != self.file_id {
                        self.reopen = true;
                        return take_line(&mut self.partial, buffer);
                    }
                    Ok(0)
                }
                Ok(_) => {
                    if""", """                Ok(n) => {
                    if n == 0 {
                        let same = file_id(&self.path) == self.file_id;
                        if same {
                            return Ok(0);
                        }
                        self.reopen = true;
                        return take_line(&mut self.partial, buffer);
                    }
                    if"""))
Q("C30", "helper open", (FW, """            self.file_id = Some((dev, ino));
            self.previous_size = metadata.size();""", """            self.previous_size = metadata.size();
            self.file_id = Some((dev, ino));"""), (FW, "        if self.reopen {\n            self.open_at_start();\n        }\n        if let Some(ref mut reader) = self.reader {\n", "        match self.reopen {\n            true => self.open_at_start(),\n            false => {}\n        }\n        if let Some(ref mut reader) = self.reader {\n"))
Q("C30", "loop match", (FV, """                while let Ok(sz) = watcher.read_line(&mut buffer) {
                    if sz > 0 {
                        bytes_read += sz;
                        lines.push(metric::LogLine::new(
                            path.to_str().expect("not a valid path"),
                            &buffer,
                        ));
                        buffer.clear();
                    } else {
                        break;
                    }
                    if bytes_read > self.max_read_bytes {
                        break;
                    }
                }""", """                while bytes_read <= self.max_read_bytes {
                    match watcher.read_line(&mut buffer) {
                        Ok(0) | Err(_) => break,
                        Ok(sz) => {
                            lines.push(metric::LogLine::new(
                                path.to_str().expect("not a valid path"),
                                &buffer,
                            ));
                            buffer.clear();
                            bytes_read += sz;
                        }
                    }
                }"""))
Q("C30", "dead continue", (FV, """                if !watcher.dead() {
                    fp_map_alt.insert(path, watcher);
                }
                global_bytes_read = global_bytes_read.saturating_add(bytes_read);""", """                global_bytes_read = global_bytes_read.saturating_add(bytes_read);
                if watcher.dead() {
                    continue;
                }
                fp_map_alt.insert(path, watcher);"""))
Q("C30", "contains", (FV, """                    let entry = fp_map.entry(path.clone());
                    if let Ok(fw) = FileWatcher::new(&path) {
                        entry.or_insert(fw);
                    };""", """                    if !fp_map.contains_key(&path) {
                        if let Ok(fw) = FileWatcher::new(&path) {
                            fp_map.insert(path, fw);
                        }
                    }"""))
Q("C30", "send in place", (FV, "            for l in lines.drain(..) {\n                send(&mut chans, metric::Event::new_log(l));\n            }", "            for l in &lines {\n                send(&mut chans, metric::Event::new_log(l.clone()));\n            }\n            lines.clear();"))
# --- C31
ES = "src/sink/elasticsearch.rs"
M("C31", "es ge", (ES, "if attempts > self.delivery_attempt_limit", "if attempts >= self.delivery_attempt_limit"))
M("C31", "es wrong idx", (ES, "                                        self.buffer.remove(idx);\n                                    }", "                                        self.buffer.remove(0);\n                                    }"))
M("C31", "es pop", (ES, "                                    self.buffer.remove(idx);\n                                    ELASTIC", "                                    self.buffer.pop();\n                                    ELASTIC"))
M("C31", "es clear on error", (ES, "                Err(err) => {\n                    match err {", "                Err(err) => {\n                    self.buffer.clear();\n                    match err {"))
M("C31", "es clear on client error", (ES, "ELASTIC_ERROR_CLIENT.fetch_add(1, Ordering::Relaxed);", "ELASTIC_ERROR_CLIENT.fetch_add(1, Ordering::Relaxed); if self.buffer.len() > 1000 { self.buffer.remove(0); }"))
M("C31", "es no count", (ES, "self.buffer[idx].attempts = attempts;", ""))
M("C31", "es count index only", (ES, "self.buffer[idx].attempts = attempts;", "if item.source().is_none() { self.buffer[idx].attempts = attempts; }"))
M("C31", "es resets", (ES, "self.buffer[idx].attempts = attempts;", "self.buffer[idx].attempts = attempts; self.buffer[idx].uuid = uuid::Uuid::new_v4();"))
M("C31", "es no tags", (ES, "line.tags(&self.tags)", "line.tags(&TagMap::default())"))
M("C31", "es fields skip", (ES, "for (k, v) in &line.fields {", "for (k, v) in line.fields.iter().skip(1) {"))
M("C31", "es field key", (ES, "            for (k, v) in &line.fields {\n                obj.insert(k.clone(), Value::String(v.clone()));", "            for (k, v) in &line.fields {\n                if !v.is_empty() { obj.insert(k.clone(), Value::String(v.clone())); }"))
M("C31", "es no nl", (ES, "            buffer.push_str(&to_string(&obj).unwrap());\n            buffer.push('\\n');", "            buffer.push_str(&to_string(&obj).unwrap());\n            if self.buffer.len() > 1 { buffer.push('\\n'); }"))
M("C31", "es fresh id", (ES, '"_id" : uuid.clone(),', '"_id" : uuid::Uuid::new_v4().hyphenated().to_string(),'))
M("C31", "es day of now", (ES, "idx(&self.index_prefix, line.time)", "idx(&self.index_prefix, time::now())"))
M("C31", "es prefix order", (ES, 'format!("{}-{}", p, utc_time.format("%Y-%m-%d"))', 'format!("{}-{}", utc_time.format("%Y-%m-%d"), p)'))
M("C31", "es month", (ES, 'None => format!("{}", utc_time.format("%Y-%m-%d")),', 'None => format!("{}", utc_time.format("%Y-%m")),'))
M("C31", "es attempts 1", (ES, "            attempts: 0,", "            attempts: 1,"))
M("C31", "es dedupe", (ES, "        let uuid = uuid::Uuid::new_v4();\n", "        if self.buffer.iter().any(|l| l.line.value == line.value && l.line.time == line.time) { return; }\n        let uuid = uuid::Uuid::new_v4();\n"))
M("C31", "es batch", (ES, "for m in &self.buffer {", "for m in self.buffer.iter().take(1000) {"))
M("C31", "es ok break", (ES, "                                    self.buffer.remove(idx);\n                                    ELASTIC", "                                    self.buffer.remove(idx);\n                                    if self.buffer.len() == 7 { break; }\n                                    ELASTIC"))
M("C31", "es secs", (ES, "line.path.clone()", "line.value.clone()"))
M("C31", "es len 1", (ES, "if self.buffer.is_empty() {\n            return;", "if self.buffer.len() < 2 {\n            return;"))
Q("C31", "es format", (ES, "            buffer.push_str(&to_string(&header).unwrap());\n            buffer.push('\\n');", "            buffer.push_str(&to_string(&header).unwrap());\n            buffer.push_str(\"\\n\");"))
Q("C31", "es helper", (ES, """                                if let Some(idx) = self.position(item.id()) {
                                    self.buffer.remove(idx);""", """                                if let Some(idx) = self.position(item.id()) {
                                    let gone = self.buffer.swap_remove(idx);
                                    debug!("delivered {}", gone.uuid);"""))
Q("C31", "es inline", (ES, """                                    let attempts =
                                        self.buffer[idx].attempts.saturating_add(1);
                                    self.buffer[idx].attempts = attempts;
                                    if attempts > self.delivery_attempt_limit {
                                        self.buffer.remove(idx);
                                    }""", """                                    let limit = self.delivery_attempt_limit;
                                    let entry = &mut self.buffer[idx];
                                    entry.attempts = entry.attempts.saturating_add(1);
                                    if limit < entry.attempts {
                                        self.buffer.remove(idx);
                                    }"""))
Q("C31", "es body fn", (ES, """        let mut buffer = String::with_capacity(4048);
        self.bulk_body(&mut buffer);
        if let Ok(snd) = client.request(BulkRequest::new(buffer)).send() {""", """        let request = {
            let mut body = String::new();
            self.bulk_body(&mut body);
            BulkRequest::new(body)
        };
        let sent = client.request(request).send();
        if let Ok(snd) = sent {"""))
Q("C31", "es by text", (ES, """        let uuid = uuid::Uuid::parse_str(id).ok()?;
        self.buffer.iter().position(|line| line.uuid == uuid)""", """        match uuid::Uuid::parse_str(id) {
            Ok(uuid) => self.buffer.iter().position(|line| uuid == line.uuid),
            Err(_) => None,
        }"""))
Q("C31", "es enumerate", (ES, """        let uuid = uuid::Uuid::parse_str(id).ok()?;
        self.buffer.iter().position(|line| line.uuid == uuid)""", """        let uuid = match uuid::Uuid::parse_str(id) {
            Ok(uuid) => uuid,
            Err(_) => return None,
        };
        for (idx, line) in self.buffer.iter().enumerate() {
            if line.uuid == uuid {
                return Some(idx);
            }
        }
        None"""))
Q("C31", "es fields extend", (ES, """            for (k, v) in &line.fields {
                obj.insert(k.clone(), Value::String(v.clone()));
            }
            buffer.push_str(&to_string(&obj).unwrap());
            buffer.push('\\n');""", """            for (name, text) in line.fields.iter() {
                let text = Value::String(text.to_string());
                obj.insert(name.to_owned(), text);
            }
            let text = to_string(&payload).unwrap();
            buffer.push_str(&text);
            buffer.push('\\n');"""))
# --- C10
SP, SS = "src/protocols/statsd.rs", "src/source/statsd.rs"
M("C10", "sd rfind", (SP, "match (&src[offset..]).find(':') {", "match (&src[offset..]).rfind(':') {"))
M("C10", "sd no sampled sum", (SP, """                                        metric = if signed {
                                            metric.kind(AggregationMethod::Sum)
                                        } else {
                                            metric.kind(AggregationMethod::Set)
                                        };
                                        metric.value(val * (1.0 / sample))""", """                                        metric = metric.kind(AggregationMethod::Set);
                                        metric.value(val * (1.0 / sample))"""))
M("C10", "sd minus only", (SP, '"+" | "-" => true,', '"-" => true,'))
M("C10", "sd times", (SP, """                                            .persist(false);
                                        metric.value(val * (1.0 / sample))""", """                                            .persist(false);
                                        metric.value(val * sample)"""))
M("C10", "sd empty name", (SP, "                if name.is_empty() {\n                    return false;\n                };\n", ""))
M("C10", "sd skip bad value", (SP, "                                Ok(f) => f,\n                                Err(_) => return false,\n                            };\n                        let mut metric", "                                Ok(f) => f,\n                                Err(_) => continue,\n                            };\n                        let mut metric"))
M("C10", "sd masks all", (SP, """                                        if mask_re.is_match(name) {
                                            metric = metric
                                                .kind(AggregationMethod::Histogram)
                                                .clear_error()
                                                .bounds(bounds.clone());
                                            break;
                                        }""", """                                        if mask_re.is_match(name) {
                                            metric = metric
                                                .kind(AggregationMethod::Histogram)
                                                .clear_error()
                                                .bounds(bounds.clone());
                                        }"""))
M("C10", "sd keep error", (SP, """                                                .kind(AggregationMethod::Histogram)
                                                .clear_error()
                                                .bounds(bounds.clone());
                                            break;
                                        }""", """                                                .kind(AggregationMethod::Histogram)
                                                .bounds(bounds.clone());
                                            break;
                                        }"""))
M("C10", "sd counter persists", (SP, """                                "c" => {
                                    metric.kind(AggregationMethod::Sum).persist(false)""", """                                "c" => {
                                    metric.kind(AggregationMethod::Sum).persist(true)"""))
M("C10", "sd ms only", (SP, '"ms" | "ms|" | "h" | "h|" => {', '"ms" | "ms|" | "h|" => {'))
M("C10", "sd neg reject", (SP, "                        let mut metric =\n", "                        if val.is_nan() { return false; }\n                        let mut metric =\n"))
M("C10", "sd empty ok", (SP, "    !res.is_empty()\n", "    true\n"))
M("C10", "sd last line", (SP, "for src in source.lines() {", "for src in source.trim_end().lines().take(1000) {"))
M("C10", "sd rate 0", (SP, """                                            Err(_) => return false,
                                        };
                                        metric = metric
                                            .kind(AggregationMethod::Sum)""", """                                            Err(_) => 1.0,
                                        };
                                        metric = metric
                                            .kind(AggregationMethod::Sum)"""))
M("C10", "sd no clear", (SS, "                            metrics.clear();\n", ""))
M("C10", "sd full buf", (SS, "str::from_utf8(&buf[..len])", "str::from_utf8(&buf[..])"))
M("C10", "sd one per wake", (SS, "STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);\n", "STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);\n break;\n"))
M("C10", "sd send reversed", (SS, "for m in metrics.drain(..) {", "for m in metrics.drain(..).rev() {"))
M("C10", "sd bad utf8 fatal", (SS, '                        error!("Payload not valid UTF-8: {:?}", e);', '                        error!("Payload not valid UTF-8: {:?}", e); return Err(StatsdHandlerErr::Fatal);'))
M("C10", "sd sign trimmed", (SP, "let signed = match &src[offset..=offset] {", "let signed = match &src[0..1] {"))
M("C10", "sd at first", (SP, "metric = match (&src[offset..]).find('@') {", "metric = match (&src[offset..]).find(\"|@\") {"))
Q("C10", "sd starts_with", (SP, """                        let signed = match &src[offset..=offset] {
                            "+" | "-" => true,
                            _ => false,
                        };""", """                        let digits = &src[offset..];
                        let signed = digits.starts_with('+') || digits.starts_with('-');"""))
Q("C10", "sd shrinking", (SP, """        let mut offset = 0;
        let len = src.len();
        match (&src[offset..]).find(':') {
            Some(colon_idx) => {
                let name = &src[offset..(offset + colon_idx)];
                if name.is_empty() {
                    return false;
                };
                offset += colon_idx + 1;
                if offset >= len {
                    return false;
                };""", """        let mut offset = 0;
        let len = src.len();
        match src.find(':') {
            Some(0) => return false,
            Some(colon_idx) => {
                let (name, _) = src.split_at(colon_idx);
                offset += colon_idx + 1;"""))
Q("C10", "sd closure", (SP, """                                "c" => {
                                    metric.kind(AggregationMethod::Sum).persist(false)""", """                                "c" => {
                                    let kind = || AggregationMethod::Sum;
                                    metric.persist(false).kind(kind())"""))
Q("C10", "sd by slices", (SP, """                                Ok(f) => f,
                                Err(_) => return false,
                            };
                        let mut metric""", """                                Ok(number) => number,
                                Err(_why) => {
                                    return false;
                                }
                            };
                        let rest = &src[offset..];
                        let _ = &rest[..pipe_idx];
                        let mut metric"""))
Q("C10", "sd div", (SP, """                                            .persist(false);
                                        metric.value(val * (1.0 / sample))""", """                                            .persist(false);
                                        metric.value(val / sample)"""))
Q("C10", "sd send fn", (SS, """                            for m in metrics.drain(..) {
                                send(&mut chans, metric::Event::new_telemetry(m));
                            }""", """                            metrics
                                .drain(..)
                                .map(metric::Event::new_telemetry)
                                .for_each(|ev| send(&mut chans, ev));"""))
Q("C10", "sd own vec", (SS, "        let mut metrics = Vec::new();\n", ""), (SS, "                    Ok(val) => {\n                        if parse", "                    Ok(val) => {\n                        let mut metrics = Vec::new();\n                        if parse"), (SS, "                            metrics.clear();\n", ""))
Q("C10", "sd if kind", (SS, """                Err(e) => match e.kind() {
                    ErrorKind::WouldBlock => {
                        break;
                    }
                    _ => {
                        error!("Could not read UDP socket with error {:?}", e);
                        return Err(StatsdHandlerErr::Fatal);
                    }
                },""", """                Err(e) => {
                    if e.kind() == ErrorKind::WouldBlock {
                        return Ok(());
                    }
                    error!("Could not read UDP socket with error {:?}", e);
                    return Err(StatsdHandlerErr::Fatal);
                }"""), (SS, """            }
        }
        Ok(())
    }
}""", """            }
        }
    }
}"""))
# --- C11
GP, GS = "src/protocols/graphite.rs", "src/source/graphite.rs"
M("C11", "gr sum", (GP, ".kind(AggregationMethod::Set)\n", ".kind(AggregationMethod::Sum)\n"))
M("C11", "gr no kind", (GP, ".kind(AggregationMethod::Set)\n", ""))
M("C11", "gr skip", (GP, """                    let parsed_val = match f64::from_str(val) {
                        Ok(f) => f,
                        Err(_) => return false,""", """                    let parsed_val = match f64::from_str(val) {
                        Ok(f) => f,
                        Err(_) => continue,"""))
M("C11", "gr swap", (GP, "f64::from_str(val)", "f64::from_str(time)"))
M("C11", "gr time of float", (GP, """                    let parsed_time = match i64::from_str(time) {
                        Ok(t) => t,""", """                    let parsed_time = match f64::from_str(time) {
                        Ok(t) => t as i64,"""))
M("C11", "gr neg time", (GP, "                        Ok(t) => t,\n", "                        Ok(t) if t >= 0 => t,\n                        Ok(_) => return false,\n"))
M("C11", "gr partial ok", (GP, """                None => return false,
            },
            None => return false,""", """                None => break,
            },
            None => return false,"""))
M("C11", "gr true", (GP, "    !res.is_empty()\n", "    true\n"))
M("C11", "gr clear line late", (GS, "                                        line.clear();\n", "                                        if parsed { line.clear(); }\n"))
M("C11", "gr no res clear", (GS, "                                            res.clear();\n", ""))
M("C11", "gr line per wake", (GS, "                        match event.token() {\n", "                        line.clear();\n                        match event.token() {\n"))
M("C11", "gr clear on wouldblock", (GS, "                                        // What there is of a line stays in `line`.\n", "                                        line.clear();\n"))
M("C11", "gr one line per wake", (GS, "                                        line.clear();\n", "                                        line.clear();\n                                        if line_reader.buffer().is_empty() { break; }\n"))
M("C11", "gr bad returns", (GS, "                                            res.clear();\n", "                                            res.clear();\n                                            if line.len() > 10_000 { return; }\n"))
M("C11", "gr first only", (GS, "for m in res.drain(..) {", "for m in res.drain(..1) {"))
M("C11", "gr lossy bad", (GS, "Err(_) => false,", "Err(e) => match str::from_utf8(&line[..e.valid_up_to()]) { Ok(val) => parse_graphite(val, &mut res, &basic_metric), Err(_) => false },"))
M("C11", "gr last", (GS, """                                    Ok(0) => {
                                        // Client went away.
                                        return;
                                    }

                                    Ok(_) => {""", """                                    Ok(n) if n <= 1 => {
                                        // Client went away.
                                        return;
                                    }

                                    Ok(_) => {"""))
Q("C11", "gr let else", (GP, """        match iter.next() {
            Some(val) => match iter.next() {
                Some(time) => {""", """        let val = iter.next();
        let time = match val {
            Some(_) => iter.next(),
            None => None,
        };
        match val {
            Some(val) => match time {
                Some(time) => {"""))
Q("C11", "gr parse", (GP, "match f64::from_str(val) {", "match val.parse::<f64>() {"))
Q("C11", "gr helper", (GP, """                            .value(parsed_val)
                            .kind(AggregationMethod::Set)
                            .timestamp(parsed_time)""", """                            .kind(AggregationMethod::Set)
                            .timestamp(parsed_time)
                            .value(parsed_val)"""))
Q("C11", "gr send before count", (GS, """                                            for m in res.drain(..) {
                                                send(
                                                    &mut chans,
                                                    metric::Event::Telemetry(m),
                                                );
                                            }""", """                                            let found = std::mem::replace(&mut res, Vec::new());
                                            for m in found {
                                                send(&mut chans, metric::Event::new_telemetry(m));
                                            }"""))
Q("C11", "gr fn", (GS, """                                        let parsed = match str::from_utf8(&line) {
                                            Ok(val) => parse_graphite(
                                                val,
                                                &mut res,
                                                &basic_metric,
                                            ),
                                            Err(_) => false,
                                        };""", """                                        let mut parsed = false;
                                        if let Ok(text) = str::from_utf8(&line) {
                                            parsed = parse_graphite(text, &mut res, &basic_metric);
                                        }"""))
Q("C11", "gr loop", (GP, "    while let Some(name) = iter.next() {\n", "    loop {\n        let name = match iter.next() {\n            Some(name) => name,\n            None => break,\n        };\n"))

NB = "src/source/nonblocking.rs"
NS = "src/source/native.rs"
AV = "src/source/avro.rs"
M("C14", "fr prefix pos kept", (NB, "                        self.length_pos = 0;\n", ""))
M("C14", "fr payload pos kept", (NB, "        self.payload_pos = 0;\n        Ok(())", "        Ok(())"))
M("C14", "fr little", (NB, "BigEndian::read_u32", "byteorder::LittleEndian::read_u32"))
M("C14", "fr limit ge", (NB, "self.payload_size.unwrap() > self.max_payload_size", "self.payload_size.unwrap() >= self.max_payload_size"))
M("C14", "fr limit late", (NB, """        self.read_payload()?;

""", ""), (NB, "        if self.payload_size.unwrap() > self.max_payload_size {", "        let size = self.payload_size.unwrap();\n        self.read_payload()?;\n        if size > self.max_payload_size {"))
M("C14", "fr exact", (NB, """                .read(&mut self.payload[self.payload_pos..payload_size])
            {
                Ok(0) => return Err(PayloadErr::EOF),

                Ok(bytes_read) => {
                    // We may not have enough yet. Store the difference and
                    // try again later.
                    self.payload_pos += bytes_read;
                }
""", """                .read_exact(&mut self.payload[self.payload_pos..payload_size])
            {
                Ok(()) => self.payload_pos = payload_size,
"""))
M("C14", "fr pos local", (NB, "        while self.payload_pos < payload_size {", "        self.payload_pos = 0;\n        while self.payload_pos < payload_size {"))
M("C14", "fr interrupted", (NB, "                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,\n\n                Err(e) => return Err(e.into()),\n            }\n        }\n\n", "                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => return Err(PayloadErr::EOF),\n\n                Err(e) => return Err(e.into()),\n            }\n        }\n\n"))
M("C14", "fr kinds", (NB, "if e.kind() == io::ErrorKind::WouldBlock {\n            PayloadErr::WouldBlock\n        } else if", "if e.kind() == io::ErrorKind::TimedOut {\n            PayloadErr::WouldBlock\n        } else if"))
M("C14", "fr clear on wouldblock", (NB, "                Err(e) => return Err(e.into()),\n            }\n        }\n\n", "                Err(e) => {\n                    self.payload.clear();\n                    return Err(e.into());\n                }\n            }\n        }\n\n"))
M("C14", "fr size kept", (NB, "        self.payload_size = None;\n        self.payload_pos", "        self.payload_pos"))
M("C14", "fr eof later", (NB, """                Ok(0) => return Err(PayloadErr::EOF),

                Ok(bytes_read) => {
                    // The""", """                Ok(0) if self.length_pos == 0 => return Err(PayloadErr::WouldBlock),
                Ok(0) => return Err(PayloadErr::EOF),

                Ok(bytes_read) => {
                    // The"""))
M("C14", "fr clone out", (NB, "Ok(mem::replace(&mut self.payload, Vec::new()))", "Ok(self.payload.clone())"))
M("C14", "fr short prefix", (NB, "if self.length_pos == self.length.len() {", "if self.length_pos >= self.length.len() - 1 {"))
M("C14", "nat one per wake", (NS, "                                while streaming {\n", "                                for _ in 0..1 {\n"))
M("C14", "nat reader per wake", (NS, "            let mut events =", "            reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);\n            let mut events ="))
M("C14", "nat parse failure ignored", (NS, """                                                    .fetch_add(1, Ordering::Relaxed);
                                                streaming = false;
                                                break;""", """                                                    .fetch_add(1, Ordering::Relaxed);
                                                continue;"""))
M("C14", "nat too long ignored", (NS, """{:?}", e);
                                            streaming = false;""", """{:?}", e);"""))
M("C14", "avro eof goes on", (AV, """                                            trace!("TCP stream closed.");
                                            streaming = false;""", """                                            trace!("TCP stream closed.");"""))
M("C14", "avro wouldblock ends", (AV, """                                            // later.
                                            break;""", """                                            // later.
                                            streaming = false;
                                            break;"""))
M("C14", "avro stop after ack", (AV, """                                                trace!("Acked {:?}", id);
""", """                                                trace!("Acked {:?}", id);
                                                break;
"""))
Q("C14", "fr fill", (NB, """            match self.buffer.read(&mut self.length[self.length_pos..]) {
                Ok(0) => return Err(PayloadErr::EOF),

                Ok(bytes_read) => {
                    // The prefix may arrive in pieces. Keep the ones we have.
                    self.length_pos += bytes_read;
                    if self.length_pos == self.length.len() {
                        let size = BigEndian::read_u32(&self.length);
                        self.payload_size = Some(size as usize);
                        self.length_pos = 0;
                    }
                }

                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,

                Err(e) => return Err(e.into()),
            }
        }
        Ok(())
    }
""", """            fill(&mut self.buffer, &mut self.length, &mut self.length_pos)?;
            if self.length_pos == 4 {
                self.payload_size = Some(BigEndian::read_u32(&self.length) as usize);
                self.length_pos = 0;
            }
        }
        Ok(())
    }
"""), (NB, """            match self
                .buffer
                .read(&mut self.payload[self.payload_pos..payload_size])
            {
                Ok(0) => return Err(PayloadErr::EOF),

                Ok(bytes_read) => {
                    // We may not have enough yet. Store the difference and
                    // try again later.
                    self.payload_pos += bytes_read;
                }

                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,

                Err(e) => return Err(e.into()),
            }
""", """            fill(&mut self.buffer, &mut self.payload, &mut self.payload_pos)?;
"""), (NB, "/// Buffered length-prefixed payload.\n", """/// Reads some of what is missing.
fn fill<R: Read>(from: &mut R, into: &mut [u8], pos: &mut usize) -> Result<(), PayloadErr> {
    loop {
        match from.read(&mut into[*pos..]) {
            Ok(0) => return Err(PayloadErr::EOF),
            Ok(n) => {
                *pos += n;
                return Ok(());
            }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e.into()),
        }
    }
}

/// Buffered length-prefixed payload.
"""))
Q("C14", "fr be bytes", (NB, "BigEndian::read_u32(&self.length)", "u32::from_be_bytes(self.length)"))
Q("C14", "fr resize less", (NB, "if self.payload.len() != payload_size {", "if self.payload.len() < payload_size {"))
Q("C14", "fr match kind", (NB, """        if e.kind() == io::ErrorKind::WouldBlock {
            PayloadErr::WouldBlock
        } else if e.kind() == io::ErrorKind::UnexpectedEof {
            PayloadErr::EOF
        } else {
            PayloadErr::IO(e)
        }""", """        match e.kind() {
            io::ErrorKind::UnexpectedEof => PayloadErr::EOF,
            io::ErrorKind::WouldBlock => PayloadErr::WouldBlock,
            _ => PayloadErr::IO(e),
        }"""))
Q("C14", "fr size in match", (NB, """        if self.payload_size.is_none() {
            self.read_length()?;
        }
        if self.payload_size.unwrap() > self.max_payload_size {
            return Err(PayloadErr::LengthTooLarge);
        }
""", """        self.read_length()?;
        match self.payload_size {
            Some(size) if size <= self.max_payload_size => {}
            _ => return Err(PayloadErr::LengthTooLarge),
        }
"""))
Q("C14", "nat loop return", (NS, """                                                streaming = false;
                                                break;
                                            }
                                            NATIVE_PAYLOAD_SUCCESS_SUM""", """                                                let _ = stream.shutdown(net::Shutdown::Both);
                                                return;
                                            }
                                            NATIVE_PAYLOAD_SUCCESS_SUM"""))
Q("C14", "avro match res", (AV, """                                            if handle_res.is_err() {
                                                AVRO_PAYLOAD_PARSE_FAILURE_SUM
                                                    .fetch_add(1, Ordering::Relaxed);
                                                streaming = false;
                                                break;
                                            }
""", """                                            let handle_res = match handle_res {
                                                Ok(x) => Ok::<_, ()>(x),
                                                Err(_) => {
                                                    AVRO_PAYLOAD_PARSE_FAILURE_SUM
                                                        .fetch_add(1, Ordering::Relaxed);
                                                    streaming = false;
                                                    break;
                                                }
                                            };
"""))

KF = "src/sink/kafka.rs"
AB = "src/metric/ackbag.rs"
M("C07", "ack shared id", (AV, """                                            let connection_id = Uuid::new_v4();
""", ""), (AV, "        let mut streaming = true;\n", "        let connection_id = Uuid::new_v4();\n        let mut streaming = true;\n"))
M("C07", "ack prepared after send", (AV, """                if header.sync() {
                    ackbag.prepare_wait(connection_id)
                }

""", ""), (AV, "                    ackbag.wait_for(connection_id);\n", "                    ackbag.prepare_wait(connection_id);\n                    ackbag.wait_for(connection_id);\n"))
M("C07", "ack no wait", (AV, "                    ackbag.wait_for(connection_id);\n", ""))
M("C07", "ack bit 2", (AV, "const CONTROL_SYNC: u32 = 1;", "const CONTROL_SYNC: u32 = 3;"))
M("C07", "ack eq", (AV, "(self.control & Header::CONTROL_SYNC) > 0", "self.control == Header::CONTROL_SYNC"))
M("C07", "ack order id", (AV, "Ok(Some(header.id))", "Ok(Some(header.order_by))"))
M("C07", "ack little", (AV, "resp.write_u64::<BigEndian>(id)", "resp.write_u64::<byteorder::LittleEndian>(id)"))
M("C07", "ack order by id", (AV, "order_by: header.order_by,\n                        encoding", "order_by: header.id,\n                        encoding"))
M("C07", "ack no metadata", (AV, "                        metadata: metadata,\n                        connection_id", "                        metadata: if header.sync() { metadata } else { None },\n                        connection_id"))
M("C07", "write from start", (NB, "stream.write(&bytes[written..])", "stream.write(bytes)"))
M("C07", "write gives up", (NB, "io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted => {\n                    continue;\n                }", "io::ErrorKind::Interrupted => {\n                    continue;\n                }\n                io::ErrorKind::WouldBlock => return Ok(()),"))
M("C07", "write once", (NB, "                written += bytes_written;\n", "                written += bytes_written.max(1);\n"))
M("C07", "bag entry kept", (AB, "        bag.insert(key, SyncAckProps::default());", "        bag.entry(key).or_insert_with(SyncAckProps::default);"))
M("C07", "bag waits gone", (AB, "wait = props.acks_received() == 0,", "wait = props.acks_received() < 2,"))
M("C07", "bag lock in nap", (AB, """            match self.props_for(key) {
                Some(props) => wait = props.acks_received() == 0,
                _ => wait = false,
            }
""", """            let bag = self.waiting_syncs.lock().unwrap();
            match bag.get(&key) {
                Some(props) => wait = props.acks_received() == 0,
                _ => wait = false,
            }
"""))
M("C07", "bag ack creates", (AB, "        if let Some(v) = bag.get_mut(&key) {\n            callback(v);\n        }", "        callback(bag.entry(key).or_insert_with(SyncAckProps::default));"))
M("C07", "kafka order dec", (KF, 'format!("{:X}", order_by)', 'format!("{}", order_by)'))
M("C07", "kafka bytes set", (KF, "self.message_bytes += bytes.len();", "self.message_bytes = bytes.len();"))
M("C07", "kafka no id", (KF, "            metadata,\n            connection_id,\n        );\n        self.messages.push(future);", "            metadata,\n            None,\n        );\n        let _ = connection_id;\n        self.messages.push(future);"))
M("C07", "kafka retry no id", (KF, "                            message.connection_id(),\n                        ))", "                            None,\n                        ))"))
M("C07", "kafka retry no metadata", (KF, "                            metadata,\n                            message.connection_id(),", "                            metadata.filter(|m| m.len() < 16),\n                            message.connection_id(),"))
M("C07", "kafka retry key", (KF, "                            key.unwrap(),\n", "                            payload.unwrap(),\n"))
M("C07", "kafka retry acked", (KF, "                                    inc_retry += 1;\n", "                                    inc_retry += 1;\n                                    ack_ids.push(connection_id);\n"))
M("C07", "kafka fewer retried", (KF, "                                | RDKafkaError::MessageTimedOut\n", ""))
M("C07", "kafka fail unacked", (KF, """                                error!("Failed in send to kafka broker: {:?}", err);
                                inc_fail += 1;
                                ack_ids.push(connection_id);
""", """                                error!("Failed in send to kafka broker: {:?}", err);
                                inc_fail += 1;
"""))
M("C07", "kafka cancel unacked", (KF, """operation canceled");
                        inc_fail += 1;
                        ack_ids.push(connection_id);
""", """operation canceled");
                        inc_fail += 1;
"""))
M("C07", "kafka lost unacked", (KF, "                        ack_ids.push(message.connection_id());\n", ""))
M("C07", "kafka flush once", (KF, "        while !self.messages.is_empty() {", "        if !self.messages.is_empty() {"))
M("C07", "kafka flush few", (KF, "        while !self.messages.is_empty() {", "        let mut tries = 0;\n        while !self.messages.is_empty() && tries < 16 {\n            tries += 1;"))
M("C07", "kafka bytes kept", (KF, "        self.message_bytes = 0;\n        for", "        if self.messages.len() > 1 { self.message_bytes = 0; }\n        for"))
M("C07", "kafka acks skip", (KF, "        for connection_id in ack_ids {\n", "        for connection_id in ack_ids.into_iter().take(inc_pub) {\n"))
M("C07", "kafka ack early", (KF, "        self.messages.push(future);\n", "        self.messages.push(future);\n        self.acknowledge(connection_id);\n"))
M("C07", "kafka finalize ok", (KF, "                _ => None,\n            },\n            None => None,", "                _ => Some(Ok((0, 0))),\n            },\n            None => None,"))
M("C07", "kafka headers one", (KF, "            for (k, v) in m {\n", "            for (k, v) in m.into_iter().take(8) {\n"))
M("C07", "kafka ack if first", (KF, "                props.ack();\n", "                if props.acks_received() > 0 { props.ack(); }\n"))
M("C07", "kafka shutdown", (KF, "    fn shutdown(mut self) {\n        self.flush();\n", "    fn shutdown(mut self) {\n        if self.message_bytes >= self.max_message_bytes {\n            self.flush();\n        }\n"))
Q("C07", "ack early return", (AV, """                if header.sync() {
                    ackbag.wait_for(connection_id);
                    ackbag.remove(connection_id);
                    Ok(Some(header.id))
                } else {
                    Ok(None)
                }
""", """                if !header.sync() {
                    return Ok(None);
                }
                ackbag.wait_for(connection_id);
                ackbag.remove(connection_id);
                Ok(Some(header.id))
"""))
Q("C07", "ack be bytes", (AV, """                                                let mut resp = Cursor::new(Vec::new());
                                                resp.write_u64::<BigEndian>(id)
                                                    .expect(
                                                        "Failed to write response id!",
                                                    );
                                                write_all(&stream, resp.get_ref())
""", """                                                write_all(&stream, &id.to_be_bytes())
"""), (AV, "use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};", "use byteorder::{BigEndian, ReadBytesExt};"))
Q("C07", "ack ne", (AV, "(self.control & Header::CONTROL_SYNC) > 0", "self.control & Header::CONTROL_SYNC != 0"))
Q("C07", "bag loop", (AB, """        let mut wait = true;
        while wait {
            match self.props_for(key) {
                Some(props) => wait = props.acks_received() == 0,
                _ => wait = false,
            }
            if wait {
                cb(current_nap_time);
                current_nap_time = min(max_nap_time, current_nap_time * 2);
            }
        }
""", """        loop {
            match self.props_for(key) {
                Some(ref props) if props.acks_received() == 0 => {}
                _ => return,
            }
            cb(current_nap_time);
            current_nap_time = min(max_nap_time, current_nap_time * 2);
        }
"""))
Q("C07", "bag map", (AB, """        match bag.get(&key) {
            Some(v) => Some((*v).clone()),
            None => None,
        }""", """        bag.get(&key).cloned()"""))
Q("C07", "write index", (NB, """        match stream.write(&bytes[written..]) {
            Ok(bytes_written) => {
                written += bytes_written;
            }
""", """        let left = &bytes[written..];
        match stream.write(left) {
            Ok(n) => written += n,
"""), (NB, """                io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted => {
                    continue;
                }
""", """                io::ErrorKind::WouldBlock => {}
                io::ErrorKind::Interrupted => {}
"""))
Q("C07", "kafka acks direct", (KF, """                        ack_ids.push(message.connection_id());
                        error""", """                        self.acknowledge(message.connection_id());
                        error"""), (KF, "        let mut ack_ids: Vec<Option<Uuid>> = Vec::new();\n        while", "        while"), (KF, """        self.message_bytes = 0;
        for ack_id in ack_ids {
            self.acknowledge(ack_id);
        }
""", """        self.message_bytes = 0;
"""))
Q("C07", "kafka retry fn", (KF, """            let new_messages = retry_payload_and_keys
                .iter()
                .filter_map(|message| {
                    let payload = message.payload();
                    let key = message.key();
                    let metadata = message.metadata();
                    if payload.is_some() && key.is_some() {
                        Some(self.producer.try_payload(
                            &self.topic_name[..],
                            payload.unwrap(),
                            key.unwrap(),
                            metadata,
                            message.connection_id(),
                        ))
                    } else {
                        ack_ids.push(message.connection_id());
                        error!("Unable to retry message. It was lost to the ether.");
                        self.stats.increment_retry_failed(1);
                        None
                    }
                })
                .collect();
            self.messages = new_messages;
""", """            let mut new_messages = Vec::with_capacity(retry_payload_and_keys.len());
            for message in &retry_payload_and_keys {
                match (message.payload(), message.key()) {
                    (Some(payload), Some(key)) => {
                        new_messages.push(self.producer.try_payload(
                            &self.topic_name[..],
                            payload,
                            key,
                            message.metadata(),
                            message.connection_id(),
                        ));
                    }
                    _ => {
                        ack_ids.push(message.connection_id());
                        self.stats.increment_retry_failed(1);
                    }
                }
            }
            self.messages = new_messages;
"""))
Q("C07", "kafka await loop", (KF, """        let result = self.messages
            .iter_mut()
            .filter_map(|future| {
                let result = future.finalize();""", """        let mut kept = Vec::new();
        for future in self.messages.iter_mut() {
                let result = future.finalize();"""), (KF, """                            ack_ids.push(connection_id);
                            None
                        }

                        Err((err""", """                            ack_ids.push(connection_id);
                        }

                        Err((err"""), (KF, "                                    Some(FailedMessageWrapper{\n                                        message,\n                                        connection_id: connection_id\n                                    })\n", "                                    kept.push(FailedMessageWrapper{ message, connection_id });\n"),
  (KF, "                                    ack_ids.push(connection_id);\n                                    None\n", "                                    ack_ids.push(connection_id);\n"), (KF, "                                ack_ids.push(connection_id);\n                                None\n", "                                ack_ids.push(connection_id);\n"),
  (KF, """                        ack_ids.push(connection_id);
                        None
                    }
                }
            })
            .collect();
""", """                        ack_ids.push(connection_id);
                    }
                }
            }
"""), (KF, "            self.acknowledge(connection_id)\n        }\n        result\n", "            self.acknowledge(connection_id)\n        }\n        kept\n"))

# --- C02 (second batch)
Q("C02", "empty skipped", (FILT, "                    for ev in events.drain(..) {\n                        util::send(&mut chans, ev)\n                    }\n                    if let", "                    if !events.is_empty() {\n                        for ev in events.drain(..) {\n                            util::send(&mut chans, ev)\n                        }\n                    }\n                    if let"))
Q("C02", "fresh buffer", (FILT, "let result = self.process(event, &mut events);\n                    for ev in events.drain(..) {", "let mut events = Vec::new();\n                    let result = self.process(event, &mut events);\n                    for ev in events {"))
# --- C13
RM = "let key_len = cursor.read_u8()?;\n        let mut key = vec![0; key_len as usize];\n        cursor.read_exact(&mut key)?;\n        let val_len = cursor.read_u16::<BigEndian>()?;\n        let mut val = vec![0; val_len as usize];\n        cursor.read_exact(&mut val)?;\n        m.insert(key, val);"
M("C13", "av swap id", (AV, "let id = cursor.read_u64::<BigEndian>()?;\n        let order_by = cursor.read_u64::<BigEndian>()?;", "let order_by = cursor.read_u64::<BigEndian>()?;\n        let id = cursor.read_u64::<BigEndian>()?;"))
M("C13", "av order is id", (AV, "            order_by: order_by,\n        })", "            order_by: id,\n        })"))
M("C13", "av little", (AV, "let control = cursor.read_u32::<BigEndian>()?;", "let control = cursor.read_u32::<byteorder::LittleEndian>()?;"))
M("C13", "av little val", (AV, "cursor.read_u16::<BigEndian>()?", "cursor.read_u16::<byteorder::LittleEndian>()?"))
M("C13", "av v3", (AV, "if header.version < 2 {", "if header.version < 3 {"))
M("C13", "av only v2", (AV, "if header.version < 2 {", "if header.version != 2 {"))
M("C13", "av le 2", (AV, "if header.version < 2 {", "if header.version <= 2 {"))
M("C13", "av one less", (AV, "for _ in 0..num_kv {", "for _ in 1..num_kv {"))
M("C13", "av one more", (AV, "for _ in 0..num_kv {", "for _ in 0..(u16::from(num_kv) + 1) {"))
M("C13", "av single", (AV, "if num_kv < 1 {", "if num_kv <= 1 {"))
M("C13", "av key u16", (AV, "let key_len = cursor.read_u8()?;", "let key_len = cursor.read_u16::<BigEndian>()?;"))
M("C13", "av val u8", (AV, "let val_len = cursor.read_u16::<BigEndian>()?;", "let val_len = cursor.read_u8()?;"))
M("C13", "av val i8 len", (AV, "vec![0; val_len as usize]", "vec![0; (val_len as u8) as usize]"))
M("C13", "av read key", (AV, "cursor.read_exact(&mut key)?;", "let _n = cursor.read(&mut key)?;"))
M("C13", "av read val", (AV, "cursor.read_exact(&mut val)?;", "let _n = cursor.read(&mut val)?;"))
M("C13", "av map per pair", (AV, "        let key_len = cursor.read_u8()?;", "        if m.len() == 16 { m = Metadata::default(); }\n        let key_len = cursor.read_u8()?;"))
M("C13", "av swapped pair", (AV, "m.insert(key, val);", "m.insert(val, key);"))
M("C13", "av first wins", (AV, "m.insert(key, val);", "if !m.contains_key(&key) { m.insert(key, val); }"))
M("C13", "av empty value", (AV, "m.insert(key, val);", "if !val.is_empty() { m.insert(key, val); }"))
M("C13", "av whole blob", (AV, "let mut avro_blob = Vec::new();\n        if cursor.read_to_end(&mut avro_blob).is_err() {", "let avro_blob = cursor.get_ref().clone();\n        if cursor.read_to_end(&mut Vec::new()).is_err() {"))
M("C13", "av unchecked", (AV, "if let Err(e) = serde_avro::de::Deserializer::from_container(&avro_blob[..]) {", "if avro_blob.is_empty() { let e = 0;"))
M("C13", "av unchecked v1", (AV, "if let Err(e) = serde_avro::de::Deserializer::from_container(&avro_blob[..]) {\n            return", "if let Err(e) = serde_avro::de::Deserializer::from_container(&avro_blob[..]) {\n            if header.version > 1 {return"), (AV, "                e\n            ));\n        };", "                e\n            ));\n        }};"))
M("C13", "av check part", (AV, "from_container(&avro_blob[..])", "from_container(&avro_blob[..avro_blob.len().min(1024)])"))
M("C13", "av meta dropped", (AV, "            header: header,\n            metadata: metadata,\n            avro_blob: avro_blob,", "            header: header,\n            metadata: metadata.filter(|m| m.len() > 1),\n            avro_blob: avro_blob,"))
M("C13", "av bad meta none", (AV, """                Err(e) => {
                    return Payload::Invalid(format!(
                        "Failed to read metadata - {:?}.",
                        e
                    ));
                }""", "                Err(_) => None,"))
M("C13", "av val err breaks", (AV, "        cursor.read_exact(&mut val)?;\n", "        if cursor.read_exact(&mut val).is_err() { break; }\n"))
M("C13", "av header default", (AV, "let order_by = cursor.read_u64::<BigEndian>()?;", "let order_by = cursor.read_u64::<BigEndian>().unwrap_or(0);"))
M("C13", "av capacity", (AV, "if cursor.read_to_end(&mut avro_blob).is_err()", "if cursor.take(1_048_576).read_to_end(&mut avro_blob).is_err()"))
Q("C13", "av match", (AV, "let version = cursor.read_u32::<BigEndian>()?;", "let version = match cursor.read_u32::<BigEndian>() {\n            Ok(v) => v,\n            Err(e) => return Err(e),\n        };"))
Q("C13", "av casts", (AV, "vec![0; key_len as usize]", "vec![0; usize::from(key_len)]"), (AV, "vec![0; val_len as usize]", "vec![0u8; usize::from(val_len)]"))
Q("C13", "av zero", (AV, "if num_kv < 1 {", "if num_kv == 0 {"), (AV, "if header.version < 2 {", "if header.version <= 1 {"))
Q("C13", "av filled", (AV, RM, "let key_len = cursor.read_u8()? as usize;\n        let key = read_part(cursor, key_len)?;\n        let val_len = cursor.read_u16::<BigEndian>()? as usize;\n        let val = read_part(cursor, val_len)?;\n        m.insert(key, val);"), (AV, "/// Parses the metadata that", "fn read_part(cursor: &mut Cursor<Vec<u8>>, n: usize) -> io::Result<Vec<u8>> {\n    let mut part = vec![0; n];\n    cursor.read_exact(&mut part)?;\n    Ok(part)\n}\n\n/// Parses the metadata that"))
Q("C13", "av if let", (AV, "let metadata = if header.version < 2 {\n            None\n        } else {\n            match", "let metadata = if header.version >= 2 {\n            match"), (AV, """                        e
                    ));
                }
            }
        };

        // Read""", """                        e
                    ));
                }
            }
        } else {
            None
        };

        // Read"""))
Q("C13", "av shorthand", (AV, "            header: header,\n            metadata: metadata,\n            avro_blob: avro_blob,", "            header,\n            metadata,\n            avro_blob,"), (AV, "for _ in 0..num_kv {", "for _pair in 0..num_kv as usize {"))
Q("C13", "av while", (AV, "for _ in 0..num_kv {", "let mut left = num_kv;\n    while left > 0 {\n        left -= 1;"))
Q("C13", "av match blob", (AV, "if cursor.read_to_end(&mut avro_blob).is_err() {\n            return Payload::Invalid(\"Failed to read avro payload!\".to_string());\n        }", "match cursor.read_to_end(&mut avro_blob) {\n            Ok(_n) => {}\n            Err(_) => return Payload::Invalid(\"Failed to read avro payload!\".to_string()),\n        }"), (AV, "from_container(&avro_blob[..])", "from_container(avro_blob.as_slice())"))
Q("C13", "av early none", (AV, "if num_kv < 1 {\n        return Ok(None);\n    }\n", ""), (AV, "    Ok(Some(m))", "    if m.is_empty() { Ok(None) } else { Ok(Some(m)) }"))
# --- C09
NK, NP = "src/sink/native.rs", "src/protocols/native.rs"
M("C09", "nat size count", (NP, "compute_raw_varint32_size((self.samples.len() * 8) as u32)", "compute_raw_varint32_size(self.samples.len() as u32)"))
M("C09", "nat size no varint", (NP, "my_size += 2;", "my_size += 1;"))
M("C09", "nat size field", (NP, "string_size(2, &v)", "string_size(20, &v)"))
M("C09", "nat size repeated", (NP, "my_size += 9 * self.bin_bounds.len() as u32;", "my_size += 8 * self.bin_bounds.len() as u32;"))
M("C09", "nat size unknown", (NP, "        my_size += ::protobuf::rt::unknown_fields_size(self.get_unknown_fields());\n", ""))
M("C09", "nat write number", (NP, "os.write_int64(6, v)?;", "os.write_int64(4, v)?;"))
M("C09", "nat write swapped", (NP, "if let Some(ref v) = self.path.as_ref() {\n            os.write_string(1, &v)?;\n        }\n        if let Some(ref v) = self.value.as_ref() {\n            os.write_string(2, &v)?;", "if let Some(ref v) = self.value.as_ref() {\n            os.write_string(1, &v)?;\n        }\n        if let Some(ref v) = self.path.as_ref() {\n            os.write_string(2, &v)?;"))
M("C09", "nat write persisted true only", (NP, "            os.write_bool(3, v)?;", "            if v { os.write_bool(3, v)?; }"))
M("C09", "nat write swallow", (NP, "            os.write_enum(4, v.value())?;", "            let _ = os.write_enum(4, v.value());"))
M("C09", "nat write float", (NP, "os.write_double_no_tag(*v)?;", "os.write_float_no_tag(*v as f32)?;"))
M("C09", "nat write len", (NP, "os.write_raw_varint32((self.samples.len() * 8) as u32)?;", "os.write_raw_varint32((self.samples.len() * 4) as u32)?;"))
M("C09", "nat write lines first tag", (NP, "        for v in &self.lines {\n            os.write_tag(3,", "        for v in &self.lines {\n            os.write_tag(2,"))
M("C09", "nat read swapped", (NP, "read_repeated_double_into(wire_type, is, &mut self.samples)", "read_repeated_double_into(wire_type, is, &mut self.bin_bounds)"))
M("C09", "nat read wire unchecked", (NP, """                3 => {
                    if wire_type != ::protobuf::wire_format::WireTypeVarint {
                        return ::std::result::Result::Err(::protobuf::rt::unexpected_wire_type(wire_type));
                    }
                    let tmp = is.read_bool()?;""", """                3 => {
                    let tmp = is.read_bool()?;"""))
M("C09", "nat read int32", (NP, "let tmp = is.read_int64()?;\n                    self.timestamp_ms = ::std::option::Option::Some(tmp);\n                },\n                7", "let tmp = is.read_int32()? as i64;\n                    self.timestamp_ms = ::std::option::Option::Some(tmp);\n                },\n                7"))
M("C09", "nat read unknown err", (NP, """                7 => {
                    ::protobuf::rt::read_repeated_double_into(wire_type, is, &mut self.bin_bounds)?;
                },
""", ""))
M("C09", "nat read stop", (NP, "                    self.persisted = ::std::option::Option::Some(tmp);", "                    self.persisted = ::std::option::Option::Some(!tmp);"))
M("C09", "nat set other", (NP, "        self.timestamp_ms = ::std::option::Option::Some(v);", "        if v >= 0 { self.timestamp_ms = ::std::option::Option::Some(v); }"))
M("C09", "nat take leaves", (NP, "self.name.take().unwrap_or_else(|| ::std::string::String::new())", "self.name.take().unwrap_or_else(|| \"name\".to_string())"))
M("C09", "nat enum from", (NP, "3 => ::std::option::Option::Some(AggregationMethod::SUMMARIZE),", "3 => ::std::option::Option::Some(AggregationMethod::BIN),"))
M("C09", "nat sink kind", (NK, "metric::AggregationMethod::Set => AggregationMethod::SET", "metric::AggregationMethod::Set => AggregationMethod::SUM"))
M("C09", "nat sink persist", (NK, "telem.set_persisted(persist);", "if persist { telem.set_persisted(persist); }"))
M("C09", "nat sink secs", (NK, "m.timestamp.saturating_mul(1000)", "m.timestamp"))
M("C09", "nat sink log secs", (NK, "l.time.saturating_mul(1000)", "l.time.saturating_mul(100)"))
M("C09", "nat sink no own tags", (NK, "for (k, v) in m.tags(&self.tags) {\n                        meta.insert(k.to_string(), v.to_string());", "for (k, v) in &self.tags {\n                        meta.insert(k.to_string(), v.to_string());"))
M("C09", "nat sink empty tags", (NK, "                        meta.insert(k.clone(), v.clone());", "                        if !v.is_empty() { meta.insert(k.clone(), v.clone()); }"))
M("C09", "nat sink swapped", (NK, "meta.insert(k.clone(), v.clone());", "meta.insert(v.clone(), k.clone());"))
M("C09", "nat sink value", (NK, "telem.set_samples(m.samples());", "telem.set_samples(m.samples_sum().into_iter().collect());"))
M("C09", "nat sink path", (NK, "ll.set_path(l.path);\n                    ll.set_value(l.value);", "ll.set_path(l.value);\n                    ll.set_value(l.path);"))
M("C09", "nat sink little", (NK, "BigEndian::write_u32(&mut sz_buf, pyld_len);", "byteorder::LittleEndian::write_u32(&mut sz_buf, pyld_len);"))
M("C09", "nat sink prefix too", (NK, "BigEndian::write_u32(&mut sz_buf, pyld_len);", "BigEndian::write_u32(&mut sz_buf, pyld_len + 4);"))
M("C09", "nat sink lines only", (NK, "pyld.set_lines(RepeatedField::from_vec(lines));", "if !lines.is_empty() && pyld.get_points().is_empty() { pyld.set_lines(RepeatedField::from_vec(lines)); }"))
M("C09", "nat sink skip", (NK, "                    points.push(telem);", "                    if !telem.get_samples().is_empty() { points.push(telem); }"))
M("C09", "nat sink take", (NK, "for ev in self.buffer.drain(..) {", "for ev in self.buffer.drain(..).take(4096) {"))
M("C09", "nat src millis", (NS, "let ts: i64 = (point.get_timestamp_ms() as f64 * 0.001) as i64;", "let ts: i64 = point.get_timestamp_ms();"))
M("C09", "nat src line millis", (NS, "let ts: i64 = (line.get_timestamp_ms() as f64 * 0.001) as i64;", "let ts: i64 = (line.get_timestamp_ms() as f32 * 0.01) as i64;"))
M("C09", "nat src kind", (NS, "AggregationMethod::SUM => {\n                            metric.kind(metric::AggregationMethod::Sum)", "AggregationMethod::SUM => {\n                            metric.kind(metric::AggregationMethod::Set)"))
M("C09", "nat src persist", (NS, "                    metric = metric.persist(point.get_persisted());\n", ""))
M("C09", "nat src first again", (NS, "for smpl in &smpls[1..] {", "for smpl in &smpls[0..] {"))
M("C09", "nat src last", (NS, "for smpl in &smpls[1..] {", "for smpl in &smpls[1..smpls.len() - 1] {"))
M("C09", "nat src skip", (NS, "if smpls.is_empty() {\n                        continue;", "if smpls.is_empty() {\n                        break;"))
M("C09", "nat src name empty", (NS, "if smpls.is_empty() {", "if smpls.is_empty() || name.is_empty() {"))
M("C09", "nat src tags", (NS, "metric = metric.overlay_tag(key, value);", "if !value.is_empty() { metric = metric.overlay_tag(key, value); }"))
M("C09", "nat src tag key", (NS, "logline = logline.overlay_tag(key, value);", "logline = logline.overlay_tag(key.to_lowercase(), value);"))
M("C09", "nat src nan", (NS, "metric = metric.insert(*smpl);", "if !smpl.is_nan() { metric = metric.insert(*smpl); }"))
M("C09", "nat src path", (NS, "metric::LogLine::new(path, value)", "metric::LogLine::new(value, path)"))
M("C09", "nat src time", (NS, "                    logline = logline.time(ts);\n", ""))
M("C09", "nat src ok", (NS, """                trace!("Unable to read payload: {:?}", err);
                Err(err)""", """                trace!("Unable to read payload: {:?}", err);
                if buf.is_empty() { Ok(()) } else { Err(err) }"""))
M("C09", "nat src lines first", (NS, "for mut line in pyld.take_lines().into_iter() {", "for mut line in pyld.take_lines().into_iter().rev().take(1000) {"))
Q("C09", "nat size helper", (NP, "my_size += 1 + ::protobuf::rt::compute_raw_varint32_size((self.samples.len() * 8) as u32) + (self.samples.len() * 8) as u32;", "let bytes = (8 * self.samples.len()) as u32;\n            my_size += bytes + ::protobuf::rt::compute_raw_varint32_size(bytes) + 1;"))
Q("C09", "nat write order", (NP, "        if let Some(v) = self.persisted {\n            os.write_bool(3, v)?;\n        }\n        if let Some(v) = self.method {\n            os.write_enum(4, v.value())?;\n        }", "        if let Some(v) = self.method {\n            os.write_enum(4, v.value())?;\n        }\n        if let Some(v) = self.persisted {\n            os.write_bool(3, v)?;\n        }"))
Q("C09", "nat sink mul", (NK, "                    let persist = m.persist;\n                    telem.set_persisted(persist);\n                    telem.set_method(method);", "                    telem.set_method(method);\n                    telem.set_persisted(m.persist);"))
Q("C09", "nat sink helper", (NK, "                    let method = match m.kind() {\n                        metric::AggregationMethod::Histogram => AggregationMethod::BIN,\n                        metric::AggregationMethod::Sum => AggregationMethod::SUM,\n                        metric::AggregationMethod::Set => AggregationMethod::SET,\n                        metric::AggregationMethod::Summarize => {\n                            AggregationMethod::SUMMARIZE\n                        }\n                    };\n", "                    let method = method_of(&m);\n"), (NK, "fn connect(", "fn method_of(m: &metric::Telemetry) -> AggregationMethod {\n    match m.kind() {\n        metric::AggregationMethod::Histogram => AggregationMethod::BIN,\n        metric::AggregationMethod::Sum => AggregationMethod::SUM,\n        metric::AggregationMethod::Set => AggregationMethod::SET,\n        metric::AggregationMethod::Summarize => AggregationMethod::SUMMARIZE,\n    }\n}\n\nfn connect("))
Q("C09", "nat sink collect", (NK, "                    let mut meta = HashMap::new();\n                    // TODO\n                    //\n                    // Learn how to consume bits of the metric without having to\n                    // clone like crazy\n                    for (k, v) in l.tags(&self.tags) {\n                        meta.insert(k.clone(), v.clone());\n                    }", "                    let meta: HashMap<String, String> = l.tags(&self.tags).map(|(k, v)| (k.clone(), v.clone())).collect();"))
Q("C09", "nat sink for_each", (NK, "for (k, v) in l.tags(&self.tags) {\n                        meta.insert(k.clone(), v.clone());\n                    }", "l.tags(&self.tags).for_each(|(k, v)| {\n                        meta.insert(k.clone(), v.clone());\n                    });"))
Q("C09", "nat sink while", (NK, "for (k, v) in l.tags(&self.tags) {", "let mut tags = l.tags(&self.tags);\n                    while let Some((k, v)) = tags.next() {"))
Q("C09", "nat src order", (NS, "                    metric = metric.persist(point.get_persisted());\n                    metric = metric.timestamp(ts);\n", "                    metric = metric.timestamp(ts).persist(point.get_persisted());\n"))
Q("C09", "nat src helper", (NS, "let ts: i64 = (point.get_timestamp_ms() as f64 * 0.001) as i64;", "let ts: i64 = to_secs(point.get_timestamp_ms());"), (NS, "let ts: i64 = (line.get_timestamp_ms() as f64 * 0.001) as i64;", "let ts = to_secs(line.get_timestamp_ms());"), (NS, "impl NativeStreamHandler {", "fn to_secs(ms: i64) -> i64 {\n    ms / 1000\n}\n\nimpl NativeStreamHandler {"))
Q("C09", "nat src kind later", (NS, """                    metric = match aggr_type {
                        AggregationMethod::SET => {
                            metric.kind(metric::AggregationMethod::Set)
                        }
                        AggregationMethod::SUM => {
                            metric.kind(metric::AggregationMethod::Sum)
                        }
                        AggregationMethod::SUMMARIZE => {
                            metric.kind(metric::AggregationMethod::Summarize)
                        }
                        AggregationMethod::BIN => {
                            metric.kind(metric::AggregationMethod::Histogram)
                        }
                    };""", """                    let kind = match aggr_type {
                        AggregationMethod::SET => metric::AggregationMethod::Set,
                        AggregationMethod::SUM => metric::AggregationMethod::Sum,
                        AggregationMethod::SUMMARIZE => metric::AggregationMethod::Summarize,
                        AggregationMethod::BIN => metric::AggregationMethod::Histogram,
                    };
                    metric = metric.kind(kind);"""))
Q("C09", "nat src skip one", (NS, "for smpl in &smpls[1..] {", "for smpl in smpls.iter().skip(1) {"))
Q("C09", "nat src into", (NS, "for (key, value) in meta.drain() {\n                        logline", "for (key, value) in meta {\n                        logline"), (NS, "let mut meta = line.take_metadata();", "let meta = line.take_metadata();"))
Q("C09", "nat src fold", (NS, "                    for smpl in &smpls[1..] {\n                        metric = metric.insert(*smpl);\n                    }", "                    metric = smpls[1..].iter().fold(metric, |m, smpl| m.insert(*smpl));"))
Q("C09", "nat src nonempty", (NS, "let mut metric = metric::Telemetry::new().name(name);\n                    metric = metric.value(smpls[0]);", "let first = smpls[0];\n                    let mut metric = metric::Telemetry::new().value(first).name(name);"))

# --- C12
M("C12", "statsd parse unwrap", (SP, "let sample = match f64::from_str(\n                                            &src[(offset + sample_idx + 1)..],\n                                        ) {\n                                            Ok(f) => f,\n                                            Err(_) => return false,\n                                        };\n                                        metric = metric.persist(true);", "let sample = f64::from_str(&src[(offset + sample_idx + 1)..]).unwrap();\n                                        metric = metric.persist(true);"))
M("C12", "statsd slice over end", (SP, "f64::from_str(&src[offset..(offset + pipe_idx)])", "f64::from_str(&src[offset..=(offset + pipe_idx + 1)])"))
M("C12", "statsd type slice", (SP, "match &src[offset..(offset + sample_idx)] {", "match &src[offset..(offset + sample_idx.max(1))] {"))
M("C12", "statsd sample off by one", (SP, '''                                    "c|" | "c" => {
                                        let sample = match f64::from_str(
                                            &src[(offset + sample_idx + 1)..],''', '''                                    "c|" | "c" => {
                                        let sample = match f64::from_str(
                                            &src[(offset + sample_idx + 2)..],'''))
M("C12", "statsd sign before the value", (SP, "                        let val =\n                            match f64", "                        let _first = &src[offset..=offset];\n                        let val =\n                            match f64"))
M("C12", "statsd sign after the value", (SP, "let signed = match &src[offset..=offset] {", "let signed = match &src[(offset + pipe_idx + 1)..=(offset + pipe_idx + 1)] {"))
M("C12", "statsd utf8", (SS, "Ok((len, _)) => match str::from_utf8(&buf[..len]) {", "Ok((len, _)) => match Ok::<_, str::Utf8Error>(str::from_utf8(&buf[..len]).expect(\"text\")) {"))
M("C12", "statsd len plus one", (SS, "str::from_utf8(&buf[..len])", "str::from_utf8(&buf[..len + 1])"))
M("C12", "statsd recv err", (SS, 'return Err(StatsdHandlerErr::Fatal);', 'panic!("{:?}", e);'))
M("C12", "statsd first char", (SP, "let signed = match &src[offset..=offset] {", "let signed = match &src[..1] {"))
M("C12", "graphite value", (GP, "let parsed_val = match f64::from_str(val) {\n                        Ok(f) => f,\n                        Err(_) => return false,\n                    };", "let parsed_val = f64::from_str(val).unwrap();"))
M("C12", "graphite time", (GP, "let parsed_time = match i64::from_str(time) {\n                        Ok(t) => t,\n                        Err(_) => return false,\n                    };", "let parsed_time = i64::from_str(time).expect(\"time\");"))
M("C12", "graphite time in ms", (GP, ".timestamp(parsed_time)", ".timestamp(parsed_time * 1000)"))
M("C12", "graphite missing", (GP, "while let Some(name) = iter.next() {\n        match iter.next() {", "while let Some(name) = iter.next() {\n        let next = iter.clone().next().unwrap();\n        debug!(\"{}\", next);\n        match iter.next() {"))
M("C12", "graphite lossless", (GS, "Err(_) => false,", "Err(_) => unreachable!(),"))
M("C12", "graphite read err", (GS, 'error!("Failed to read from peer: {:?}", e);\n                                        return;', 'panic!("Failed to read from peer: {:?}", e);'))
M("C12", "graphite assert moved", (GS, "                                        if parsed {\n                                            assert!(!res.is_empty());", "                                        assert!(!res.is_empty());\n                                        if parsed {"))
M("C12", "graphite says parsed", (GP, "    !res.is_empty()\n}\n\n#[cfg", "    true\n}\n\n#[cfg"), (GS, "assert!(!res.is_empty());", "let _shown = res[0].name.clone();"))
M("C12", "native empty samples", (NS, "                    if smpls.is_empty() {\n                        continue;\n                    }\n", ""))
M("C12", "native second sample", (NS, "&smpls[1..]", "&smpls[2..]"))
M("C12", "native expects", (NS, """            Err(err) => {
                trace!("Unable to read payload: {:?}", err);
                Err(err)
            }""", """            Err(err) => panic!("Unable to read payload: {:?}", err),"""))
M("C12", "native ts arithmetic", (NS, "let ts: i64 = (line.get_timestamp_ms() as f64 * 0.001) as i64;", "let ts: i64 = (line.get_timestamp_ms() + 500) / 1000;"))
M("C12", "native read err", (NS, 'error!("Failed to process native payload! {:?}", e);\n                                            streaming = false;\n                                            break;', 'panic!("Failed to process native payload! {:?}", e);'))
M("C12", "native result unwrap", (NS, "if handle_res.is_err() {\n                                                NATIVE_PAYLOAD_PARSE_FAILURE_SUM\n                                                    .fetch_add(1, Ordering::Relaxed);\n                                                streaming = false;\n                                                break;\n                                            }", "handle_res.unwrap();"))
M("C12", "avro header unwrap", (AV, "let order_by = cursor.read_u64::<BigEndian>()?;", "let order_by = cursor.read_u64::<BigEndian>().unwrap();"))
M("C12", "avro meta value exact", (AV, "cursor.read_exact(&mut val)?;", "cursor.read_exact(&mut val).unwrap();"))
M("C12", "avro container", (AV, """        if let Err(e) = serde_avro::de::Deserializer::from_container(&avro_blob[..]) {
            return Payload::Invalid(format!(
                "Failed to deserialize container - {:?}.",
                e
            ));
        };
""", """        serde_avro::de::Deserializer::from_container(&avro_blob[..]).unwrap();
"""))
M("C12", "avro result unwrap", (AV, """                                            if handle_res.is_err() {
                                                AVRO_PAYLOAD_PARSE_FAILURE_SUM
                                                    .fetch_add(1, Ordering::Relaxed);
                                                streaming = false;
                                                break;
                                            }
""", ""))
M("C12", "avro meta by slice", (AV, "        let mut key = vec![0; key_len as usize];\n        cursor.read_exact(&mut key)?;", "        let from = cursor.position() as usize;\n        let key = cursor.get_ref()[from..from + key_len as usize].to_vec();\n        cursor.set_position((from + key_len as usize) as u64);"))
M("C12", "avro invalid panics", (AV, """            Payload::Invalid(e) => Err(PayloadErr::Protocol(format!(
                "Failed while parsing payload contents: {:?}!",
                e
            ))),""", """            Payload::Invalid(e) => panic!("Failed while parsing payload contents: {:?}!", e),"""))
M("C12", "avro duplicate keys", (AV, "m.insert(key, val);", "assert!(m.insert(key, val).is_none());"))
M("C12", "avro version", (AV, "        let metadata = if header.version < 2 {", "        assert!({ header.version } <= 2);\n        let metadata = if header.version < 2 {"))
M("C12", "avro version match", (AV, "        let metadata = if header.version < 2 {\n            None\n        } else {", "        let metadata = if header.version < 2 {\n            None\n        } else if header.version > 2 {\n            unreachable!()\n        } else {"))
Q("C12", "statsd rest", (SP, "match (&src[offset..]).find('|') {", "let rest = &src[offset..];\n                match rest.find('|') {"))
Q("C12", "statsd sign by char", (SP, """                        let signed = match &src[offset..=offset] {
                            "+" | "-" => true,
                            _ => false,
                        };""", """                        let signed = match src[offset..].chars().next() {
                            Some('+') | Some('-') => true,
                            _ => false,
                        };"""))
Q("C12", "statsd sign by prefix", (SP, """                        let signed = match &src[offset..=offset] {
                            "+" | "-" => true,
                            _ => false,
                        };""", """                        let signed =
                            src[offset..].starts_with('+') || src[offset..].starts_with('-');"""))
Q("C12", "statsd sample helper", (SP, "let sample = match f64::from_str(\n                                            &src[(offset + sample_idx + 1)..],\n                                        ) {\n                                            Ok(f) => f,\n                                            Err(_) => return false,\n                                        };\n                                        metric = metric.persist(true);", "let sample = match number(&src[(offset + sample_idx + 1)..]) {\n                                            Some(f) => f,\n                                            None => return false,\n                                        };\n                                        metric = metric.persist(true);"), (SP, "/// Valid message formats", "fn number(s: &str) -> Option<f64> {\n    f64::from_str(s).ok()\n}\n\n/// Valid message formats"))
Q("C12", "statsd parse", (SP, "match f64::from_str(&src[offset..(offset + pipe_idx)]) {", "match src[offset..(offset + pipe_idx)].parse::<f64>() {"))
Q("C12", "statsd if let", (SS, """                    Err(e) => {
                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                        error!("Payload not valid UTF-8: {:?}", e);
                    }
                },""", """                    Err(e) => {
                        error!("Payload not valid UTF-8: {:?}", e);
                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                    }
                },"""))
Q("C12", "graphite tuple", (GP, "                    let parsed_val = match f64::from_str(val) {\n                        Ok(f) => f,\n                        Err(_) => return false,\n                    };\n                    let parsed_time = match i64::from_str(time) {\n                        Ok(t) => t,\n                        Err(_) => return false,\n                    };", "                    let (parsed_val, parsed_time) =\n                        match (f64::from_str(val), i64::from_str(time)) {\n                            (Ok(f), Ok(t)) => (f, t),\n                            _ => return false,\n                        };"))
Q("C12", "graphite assert gone", (GS, "                                            assert!(!res.is_empty());\n", ""))
Q("C12", "native first", (NS, "                    if smpls.is_empty() {\n                        continue;\n                    }\n                    let mut metric = metric::Telemetry::new().name(name);\n                    metric = metric.value(smpls[0]);", "                    let mut metric = metric::Telemetry::new().name(name);\n                    metric = match smpls.first() {\n                        Some(s) => metric.value(*s),\n                        None => continue,\n                    };"))
Q("C12", "native split_first", (NS, "                    if smpls.is_empty() {\n                        continue;\n                    }\n", "                    let (first, rest) = match smpls.split_first() {\n                        Some(x) => x,\n                        None => continue,\n                    };\n"), (NS, "metric = metric.value(smpls[0]);", "metric = metric.value(*first);"), (NS, "for smpl in &smpls[1..] {", "for smpl in rest {"))
Q("C12", "native len", (NS, "if smpls.is_empty() {", "if smpls.len() == 0 {"))
Q("C12", "native len lt", (NS, "if smpls.is_empty() {", "if smpls.len() < 1 {"))
Q("C12", "native match res", (NS, "if handle_res.is_err() {", "if let Err(e) = handle_res {\n                                                debug!(\"{:?}\", e);"))
Q("C12", "avro match res", (AV, """                                            if handle_res.is_err() {
                                                AVRO_PAYLOAD_PARSE_FAILURE_SUM
                                                    .fetch_add(1, Ordering::Relaxed);
                                                streaming = false;
                                                break;
                                            }
""", """                                            let maybe_id = match handle_res {
                                                Ok(id) => id,
                                                Err(_) => {
                                                    AVRO_PAYLOAD_PARSE_FAILURE_SUM
                                                        .fetch_add(1, Ordering::Relaxed);
                                                    streaming = false;
                                                    break;
                                                }
                                            };
"""), (AV, "                                            let maybe_id = handle_res.unwrap();\n", ""))
Q("C12", "avro loop by while", (AV, "    for _ in 0..num_kv {\n", "    let mut left = num_kv;\n    while left > 0 {\n        left -= 1;\n"))
Q("C12", "avro meta default", (AV, "if num_kv < 1 {", "if num_kv == 0 {"))

# --- C24
IN, DFL = "src/source/internal.rs", "src/filter/delay_filter.rs"
M("C24", "int load then store", (IN, "let value = $atom.swap(0, Ordering::Relaxed);\n        if value != 0 {\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)", "let value = $atom.load(Ordering::Relaxed);\n        if value != 0 {\n            $atom.store(0, Ordering::Relaxed);\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)"))
M("C24", "int load then sub", (IN, "let value = $atom.swap(0, Ordering::Relaxed);\n        if value != 0 {\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)", "let value = $atom.load(Ordering::Relaxed);\n        if value != 0 {\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)"))
M("C24", "int above one", (IN, "if value != 0 {\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)", "if value > 1 {\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)"))
M("C24", "int kind", (IN, ".kind(AggregationMethod::Set)", ".kind(AggregationMethod::Sum)"))
M("C24", "int persist", (IN, ".kind(AggregationMethod::Sum)\n                .harden()\n                .unwrap();\n            util::send", ".kind(AggregationMethod::Sum)\n                .persist(true)\n                .harden()\n                .unwrap();\n            util::send"))
M("C24", "int same counter twice", (IN, "filter::delay_filter::DELAY_LOG_ACCEPT", "filter::delay_filter::DELAY_LOG_REJECT"))
M("C24", "int crossed", (IN, "source::statsd::STATSD_GOOD_PACKET", "source::statsd::STATSD_XXX_PACKET"), (IN, "source::statsd::STATSD_BAD_PACKET", "source::statsd::STATSD_GOOD_PACKET"), (IN, "source::statsd::STATSD_XXX_PACKET", "source::statsd::STATSD_BAD_PACKET"))
M("C24", "int missing", (IN, '''                        atom_telem!(
                            "cernan.sinks.kafka.publish.retry",
                            sink::kafka::KAFKA_PUBLISH_RETRY_SUM,
                            chans
                        );
''', ""))
M("C24", "int queue only one", (IN, "while let Some(telem) = Q.pop() {", "if let Some(telem) = Q.pop() {"), expect="any")
M("C24", "int queue dropped", (IN, '''                                util::send(
                                    &mut chans,
                                    metric::Event::new_telemetry(telem),
                                );
                            } else {''', '''                                if telem.persist {
                                    util::send(
                                        &mut chans,
                                        metric::Event::new_telemetry(telem),
                                    );
                                }
                            } else {'''))
M("C24", "int conditional", (IN, "                        // source::statsd\n                        atom_telem!(\n                            \"cernan.statsd.packet\",\n                            source::statsd::STATSD_GOOD_PACKET,\n                            chans\n                        );", "                        // source::statsd\n                        if slp.as_secs() == 0 {\n                        atom_telem!(\n                            \"cernan.statsd.packet\",\n                            source::statsd::STATSD_GOOD_PACKET,\n                            chans\n                        );\n                        }"))
M("C24", "int non atomic add", (SS, "STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);", "STATSD_GOOD_PACKET.store(STATSD_GOOD_PACKET.load(Ordering::Relaxed) + 1, Ordering::Relaxed);"))
M("C24", "int statsd per metric", (SS, "                                send(&mut chans, metric::Event::new_telemetry(m));\n                            }\n                            STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);", "                                send(&mut chans, metric::Event::new_telemetry(m));\n                                STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);\n                            }"))
M("C24", "int statsd utf8 uncounted", (SS, "                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);\n                        error!(\"Payload not", "                        error!(\"Payload not"))
M("C24", "int graphite telem one", (GS, ".fetch_add(res.len(), Ordering::Relaxed)", ".fetch_add(1, Ordering::Relaxed)"))
M("C24", "int graphite telem after", (GS, '''                                            GRAPHITE_TELEM
                                                .fetch_add(res.len(), Ordering::Relaxed);
                                            for m in res.drain(..) {
                                                send(
                                                    &mut chans,
                                                    metric::Event::Telemetry(m),
                                                );
                                            }
''', '''                                            for m in res.drain(..) {
                                                send(
                                                    &mut chans,
                                                    metric::Event::Telemetry(m),
                                                );
                                            }
                                            GRAPHITE_TELEM
                                                .fetch_add(res.len(), Ordering::Relaxed);
'''))
M("C24", "int graphite peer per wake", (GS, "        GRAPHITE_NEW_PEER.fetch_add(1, Ordering::Relaxed);\n\n        loop {", "        loop {\n            GRAPHITE_NEW_PEER.fetch_add(1, Ordering::Relaxed);"))
M("C24", "int native success early", (NS, "                                            NATIVE_PAYLOAD_SUCCESS_SUM\n                                                .fetch_add(1, Ordering::Relaxed);\n", ""), (NS, "                                            let handle_res = self", "                                            NATIVE_PAYLOAD_SUCCESS_SUM\n                                                .fetch_add(1, Ordering::Relaxed);\n                                            let handle_res = self"))
M("C24", "int avro parse as io", (AV, "AVRO_PAYLOAD_PARSE_FAILURE_SUM\n                                                    .fetch_add", "AVRO_PAYLOAD_IO_FAILURE_SUM\n                                                    .fetch_add"))
M("C24", "int avro eof counted", (AV, 'trace!("TCP stream closed.");', 'trace!("TCP stream closed.");\n                                            AVRO_PAYLOAD_IO_FAILURE_SUM\n                                                .fetch_add(1, Ordering::Relaxed);'))
M("C24", "int delay crossed", (DFL, "DELAY_LOG_REJECT.fetch_add", "DELAY_TELEM_REJECT.fetch_add"))
M("C24", "int delay counted early", (DFL, "                if self.timely(log.time) {\n                    DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);\n", "                DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);\n                if self.timely(log.time) {\n"))
M("C24", "int json processed unparsed", (JE, "                JSON_ENCODE_LOG_PROCESSED.fetch_add(1, Ordering::Relaxed);\n", ""), (JE, "JSON_ENCODE_LOG_PARSED.fetch_add(1, Ordering::Relaxed);", "JSON_ENCODE_LOG_PARSED.fetch_add(1, Ordering::Relaxed);\n                        JSON_ENCODE_LOG_PROCESSED.fetch_add(1, Ordering::Relaxed);"))
M("C24", "int wavefront failure uncounted", (WAV, "                    WAVEFRONT_DELIVERY_FAILURE.fetch_add(1, Ordering::Relaxed);\n", ""))
M("C24", "int wavefront connect success only", (WAV, "                WAVEFRONT_CONNECT_ATTEMPTS.fetch_add(1, Ordering::Relaxed);\n", ""), (WAV, "                if self.stream.is_none() {\n", "                if self.stream.is_none() {\n                    WAVEFRONT_CONNECT_ATTEMPTS.fetch_add(1, Ordering::Relaxed);\n"))
M("C24", "int wavefront stored", (WAV, "        WAVEFRONT_AGGR_STORED_VALUES.store(total_values, Ordering::Relaxed);\n        if", "        WAVEFRONT_AGGR_STORED_VALUES.fetch_add(total_values, Ordering::Relaxed);\n        if"))
M("C24", "int wavefront kinds crossed", (WAV, "AggregationMethod::Histogram => {\n                            WAVEFRONT_AGGR_HISTO.fetch_add", "AggregationMethod::Histogram => {\n                            WAVEFRONT_AGGR_SUMMARIZE.fetch_add"))
M("C24", "int influx client as server", ("src/sink/influxdb.rs", "INFLUX_FAILURE_CLIENT.fetch_add", "INFLUX_FAILURE_SERVER.fetch_add"))
M("C24", "int influx success outside", ("src/sink/influxdb.rs", "                    if resp.status().is_success() {\n                        INFLUX_SUCCESS.fetch_add(1, Ordering::Relaxed);", "                    INFLUX_SUCCESS.fetch_add(1, Ordering::Relaxed);\n                    if resp.status().is_success() {"))
M("C24", "int kafka crossed", ("src/sink/kafka.rs", "        KAFKA_PUBLISH_RETRY_FAILURE_SUM.fetch_add(inc", "        KAFKA_PUBLISH_FAILURE_SUM.fetch_add(inc"))
M("C24", "int kafka one", ("src/sink/kafka.rs", "KAFKA_PUBLISH_SUCCESS_SUM.fetch_add(inc, Ordering::Relaxed)", "KAFKA_PUBLISH_SUCCESS_SUM.fetch_add(1, Ordering::Relaxed)"))
M("C24", "int kafka if one", ("src/sink/kafka.rs", "        KAFKA_PUBLISH_SUCCESS_SUM.fetch_add(inc, Ordering::Relaxed);", "        if inc > 1 {\n            KAFKA_PUBLISH_SUCCESS_SUM.fetch_add(inc, Ordering::Relaxed);\n        }"))
M("C24", "int prom both", (PF if False else "src/sink/prometheus.rs", "                Err(e) => {\n                    PROMETHEUS_REPORT_ERROR", "                Err(e) => {\n                    PROMETHEUS_REPORT_SUCCESS.fetch_add(1, Ordering::Relaxed);\n                    PROMETHEUS_REPORT_ERROR"))
M("C24", "int full at any error", ("src/util.rs", "    while let Err(res) = chans[0].send(event) {\n", "    while let Err(res) = chans[0].send(event) {\n        UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);\n"))
M("C24", "int es delivered when unknown", ("src/sink/elasticsearch.rs", '''                                    self.buffer.remove(idx);
                                    ELASTIC_RECORDS_TOTAL_DELIVERED
                                        .fetch_add(1, Ordering::Relaxed);
                                }''', '''                                    self.buffer.remove(idx);
                                }
                                ELASTIC_RECORDS_TOTAL_DELIVERED
                                    .fetch_add(1, Ordering::Relaxed);'''))
M("C24", "int es actions crossed", ("src/sink/elasticsearch.rs", "ELASTIC_BULK_ACTION_CREATE_ERR\n                                            .fetch", "ELASTIC_BULK_ACTION_UPDATE_ERR\n                                            .fetch"))
M("C24", "int es api crossed", ("src/sink/elasticsearch.rs", "ELASTIC_ERROR_API_PARSING\n", "ELASTIC_ERROR_API_MAPPER_PARSING\n"))
Q("C24", "int gt zero", (IN, "if value != 0 {", "if value > 0 {"))
Q("C24", "int now inside", (IN, "        let now = time::now();\n        let value = $atom.swap(0, Ordering::Relaxed);\n        if value != 0 {\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)", "        let value = $atom.swap(0, Ordering::Relaxed);\n        if value != 0 {\n            let telem = Telemetry::new()\n                .name($name)\n                .timestamp(time::now())\n                .kind(AggregationMethod::Sum)\n                .value(value as f64)"))
Q("C24", "int helper", (IN, "        let now = time::now();\n        let value = $atom.swap(0, Ordering::Relaxed);\n        if value != 0 {\n            let telem = Telemetry::new()\n                .name($name)\n                .value(value as f64)\n                .timestamp(now)\n                .kind(AggregationMethod::Sum)\n                .harden()\n                .unwrap();\n            util::send(&mut $chans, metric::Event::new_telemetry(telem));\n        }\n", "        report($name, &$atom, AggregationMethod::Sum, &mut $chans);\n"), (IN, "macro_rules! atom_telem {", '''fn report(
    name: &str,
    atom: &std::sync::atomic::AtomicUsize,
    kind: AggregationMethod,
    chans: &mut util::Channel,
) {
    let value = atom.swap(0, Ordering::Relaxed);
    if value == 0 {
        return;
    }
    let telem = Telemetry::new()
        .name(name)
        .value(value as f64)
        .timestamp(time::now())
        .kind(kind)
        .harden()
        .unwrap();
    util::send(chans, metric::Event::new_telemetry(telem));
}

macro_rules! atom_telem {'''))
Q("C24", "int order", (IN, '''                        atom_telem!(
                            "cernan.statsd.packet",
                            source::statsd::STATSD_GOOD_PACKET,
                            chans
                        );
                        atom_telem!(
                            "cernan.statsd.bad_packet",
                            source::statsd::STATSD_BAD_PACKET,
                            chans
                        );''', '''                        atom_telem!(
                            "cernan.statsd.bad_packet",
                            source::statsd::STATSD_BAD_PACKET,
                            chans
                        );
                        atom_telem!(
                            "cernan.statsd.packet",
                            source::statsd::STATSD_GOOD_PACKET,
                            chans
                        );'''))
Q("C24", "int early continue", (IN, "                    if !chans.is_empty() {\n                        atom_telem!(", "                    let told = !chans.is_empty();\n                    if told {\n                        atom_telem!("))
Q("C24", "int no inner check", (IN, '''                            if !chans.is_empty() {
                                util::send(
                                    &mut chans,
                                    metric::Event::new_telemetry(telem),
                                );
                            } else {
                                // do nothing, intentionally
                            }
''', '''                            util::send(
                                &mut chans,
                                metric::Event::new_telemetry(telem),
                            );
'''))
Q("C24", "int seqcst", (SS, "STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);", "STATSD_GOOD_PACKET.fetch_add(1, Ordering::SeqCst);"))
Q("C24", "int statsd count first", (SS, "                            for m in metrics.drain(..) {\n                                send(&mut chans, metric::Event::new_telemetry(m));\n                            }\n                            STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);", "                            STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);\n                            for m in metrics.drain(..) {\n                                send(&mut chans, metric::Event::new_telemetry(m));\n                            }"))
Q("C24", "int statsd helper", (SS, "STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);", "one_more(&STATSD_GOOD_PACKET);"), (SS, "impl source::Source<StatsdConfig> for Statsd {", "fn one_more(c: &AtomicUsize) {\n    c.fetch_add(1, Ordering::Relaxed);\n}\n\nimpl source::Source<StatsdConfig> for Statsd {"))
Q("C24", "int graphite each", (GS, "                                            GRAPHITE_TELEM\n                                                .fetch_add(res.len(), Ordering::Relaxed);\n                                            for m in res.drain(..) {", "                                            let n = res.len();\n                                            GRAPHITE_TELEM.fetch_add(n, Ordering::Relaxed);\n                                            for m in res.drain(..) {"))
Q("C24", "int wavefront match", (WAV, "                let res = stream.write_all(self.stats.as_bytes());\n                if res.is_ok() {", "                if let Ok(()) = stream.write_all(self.stats.as_bytes()) {"))
Q("C24", "int wavefront count ref", (WAV, '''                        AggregationMethod::Sum => {
                            WAVEFRONT_AGGR_SUM.fetch_add(1, Ordering::Relaxed)
                        }
                        AggregationMethod::Set => {
                            WAVEFRONT_AGGR_SET.fetch_add(1, Ordering::Relaxed)
                        }''', '''                        k @ AggregationMethod::Sum | k @ AggregationMethod::Set => {
                            let counter = if k == AggregationMethod::Sum {
                                &WAVEFRONT_AGGR_SUM
                            } else {
                                &WAVEFRONT_AGGR_SET
                            };
                            counter.fetch_add(1, Ordering::Relaxed)
                        }'''))
Q("C24", "int delay bool", (DFL, '''                if self.timely(log.time) {
                    DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                    res.push(metric::Event::Log(log));
                } else {
                    DELAY_LOG_REJECT.fetch_add(1, Ordering::Relaxed);
                }''', '''                if !self.timely(log.time) {
                    DELAY_LOG_REJECT.fetch_add(1, Ordering::Relaxed);
                    return Ok(());
                }
                DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                res.push(metric::Event::Log(log));'''))
Q("C24", "int es match pos", ("src/sink/elasticsearch.rs", '''                                if let Some(idx) = self.position(item.id()) {
                                    self.buffer.remove(idx);
                                    ELASTIC_RECORDS_TOTAL_DELIVERED
                                        .fetch_add(1, Ordering::Relaxed);
                                }''', '''                                match self.position(item.id()) {
                                    Some(idx) => {
                                        ELASTIC_RECORDS_TOTAL_DELIVERED
                                            .fetch_add(1, Ordering::Relaxed);
                                        let _ = self.buffer.remove(idx);
                                    }
                                    None => {}
                                }'''))
Q("C24", "int influx statuses", ("src/sink/influxdb.rs", "if resp.status().is_success() {", "let status = resp.status();\n                    if status.is_success() {"), ("src/sink/influxdb.rs", "} else if resp.status().is_client_error() {", "} else if status.is_client_error() {"))
PR = "src/sink/prometheus.rs"
PURGE = """                let mut purged = 0;
                let mut i = 0;
                while i != samples.len() {
                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
                        samples.remove(i);
                        purged += 1;
                    } else {
                        i += 1;
                    }
                }
                purged
"""
Q("C27", "prom retain", (PR, PURGE, """                let before = samples.len();
                samples.retain(|s| (s.timestamp - time::now()).abs() <= (cap as i64));
                before - samples.len()
"""))
M("C27", "prom retain eq", (PR, PURGE, """                let before = samples.len();
                samples.retain(|s| (s.timestamp - time::now()).abs() < (cap as i64));
                before - samples.len()
"""))
Q("C27", "prom purge lt", (PR, "while i != samples.len() {", "while i < samples.len() {"))
Q("C27", "prom purge age", (PR, "if (samples[i].timestamp - time::now()).abs() > (cap as i64) {\n                        samples.remove(i);", "let age = (time::now() - samples[i].timestamp).abs();\n                    if age > (cap as i64) {\n                        samples.remove(i);"))
M("C27", "prom purge no abs", (PR, "if (samples[i].timestamp - time::now()).abs() > (cap as i64) {", "if (samples[i].timestamp - time::now()) > (cap as i64) {"))
M("C27", "prom purge ge", (PR, "(samples[i].timestamp - time::now()).abs() > (cap as i64) {", "(samples[i].timestamp - time::now()).abs() >= (cap as i64) {"))
M("C27", "prom purge swap", (PR, "samples.remove(i);", "samples.swap_remove(i);"))
M("C27", "prom purge skip", (PR, "                        purged += 1;\n                    } else {\n                        i += 1;\n                    }", "                        purged += 1;\n                    }\n                    i += 1;"))
M("C27", "prom purge first fresh", (PR, "                    } else {\n                        i += 1;\n                    }", "                    } else {\n                        break;\n                    }"))
M("C27", "prom purge one", (PR, "        for aggr in self.data.values_mut() {\n            total_purged += aggr.purge();\n        }", "        for aggr in self.data.values_mut() {\n            total_purged += aggr.purge();\n            if total_purged > 10_000 {\n                break;\n            }\n        }"))
Q("C27", "prom purge sum", (PR, "        let mut total_purged = 0;\n        for aggr in self.data.values_mut() {\n            total_purged += aggr.purge();\n        }\n        total_purged", "        self.data.values_mut().map(|a| a.purge()).sum()"))
M("C27", "prom window ok", (PR, "                        samples[idx] += telem;\n", "                        samples[idx] = telem;\n"))
M("C27", "prom window oldest", (PR, "samples.drain(0..top_idx);", "samples.drain(cap..);"))
Q("C27", "prom window ge", (PR, "if samples.len() > cap {", "if samples.len() >= cap {"))
Q("C27", "prom window remove", (PR, "                            let top_idx = samples.len() - cap;\n                            samples.drain(0..top_idx);", "                            samples.remove(0);"))
M("C27", "prom kind changes", (PR, "                } else {\n                    return false;\n                }\n            }\n            Entry::Vacant(ve) => {\n                ve.insert(match telem.kind() {\n                    AggregationMethod::Set\n                    | AggregationMethod::Sum\n                    | AggregationMethod::Histogram => Accumulator::Perpetual(telem),", "                } else {\n                    *prev = Accumulator::Perpetual(telem);\n                    return false;\n                }\n            }\n            Entry::Vacant(ve) => {\n                ve.insert(match telem.kind() {\n                    AggregationMethod::Set\n                    | AggregationMethod::Sum\n                    | AggregationMethod::Histogram => Accumulator::Perpetual(telem),"))
M("C27", "prom deliver lt", (PR, "if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {", "if (telem.timestamp - time::now()).abs() < (age_threshold as i64) {"))
M("C27", "prom deliver past only", (PR, "if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {", "if (time::now() - telem.timestamp) <= (age_threshold as i64) {"))
M("C27", "prom scrape purges", (PR, "if let Ok(ref aggr) = self.aggr.try_lock() {", "if let Ok(ref mut aggr) = self.aggr.try_lock() {\n            aggr.purge();"))
M("C27", "prom scrape clears", (PR, "            PROMETHEUS_RESPONSE_DELAY_SUM.fetch_add(us as usize, Ordering::Relaxed);\n        }", "            PROMETHEUS_RESPONSE_DELAY_SUM.fetch_add(us as usize, Ordering::Relaxed);\n        }\n        if let Ok(mut aggr) = self.aggr.try_lock() {\n            if aggr.data.len() > 100_000 {\n                aggr.data.clear();\n            }\n        }"))
M("C27", "prom key no value", (PR, "        key.push('\\0');\n        key.push_str(v);\n", ""))
M("C27", "prom key no sort", (PR, "    tags.sort();\n", ""))
M("C27", "prom iter one", (PR, "for t in &samples[1..] {\n                            start += t.clone();", "for t in &samples[..1] {\n                            start += t.clone();"))
M("C27", "prom iter count", (PR, "                                .sample_sum(sum)\n                                .count(count)\n                                .harden()\n                                .unwrap(),\n                        );\n                    }\n                },", "                                .sample_sum(sum)\n                                .harden()\n                                .unwrap(),\n                        );\n                    }\n                },"))
M("C27", "prom iter two", (PR, "                    0 => continue,\n", "                    0 | 2 => continue,\n"))
M("C27", "prom iter empty ends", (PR, "                    0 => continue,\n", "                    0 => return None,\n"))
Q("C27", "prom iter first", (PR, "                        let mut start = samples[0].clone();\n                        for t in &samples[1..] {\n                            start += t.clone();\n                        }\n                        return Some(\n                            start\n", "                        let mut start = samples[0].clone();\n                        for t in samples.iter().skip(1) {\n                            start += t.clone();\n                        }\n                        return Some(\n                            start\n"))
M("C27", "prom reportable window", (PR, "        samples.sort_by_key(|&(key, _)| key);\n", "        samples.sort_by_key(|&(key, _)| key);\n        samples.truncate(1_000_000);\n"))
M("C27", "prom sum twice", (PR, "Accumulator::Perpetual(ref mut t) => *t += telem,", "Accumulator::Perpetual(ref mut t) => {\n                if t.kind() == AggregationMethod::Histogram && t.count() == 1 {\n                    *t += telem.clone();\n                }\n                *t += telem\n            }"))
M("C27", "prom count one", (PR, "                    *count += total;", "                    *count += 1;"))
M("C27", "prom flush rarely", (PR, "        let total_purged = self.aggrs.lock().unwrap().purge();\n", "        let total_purged = if self.age_threshold.is_some() { self.aggrs.lock().unwrap().purge() } else { 0 };\n"))
Q("C27", "prom match bool", (PR, "                if prev.kind() == telem.kind() {\n                    prev.insert(telem);\n                } else {\n                    return false;\n                }\n            }\n            Entry::Vacant(ve) => {\n                ve.insert(match telem.kind() {\n                    AggregationMethod::Set\n                    | AggregationMethod::Sum\n                    | AggregationMethod::Histogram => Accumulator::Perpetual(telem),", "                if prev.kind() != telem.kind() {\n                    return false;\n                }\n                prev.insert(telem);\n            }\n            Entry::Vacant(ve) => {\n                ve.insert(match telem.kind() {\n                    AggregationMethod::Set\n                    | AggregationMethod::Sum\n                    | AggregationMethod::Histogram => Accumulator::Perpetual(telem),"))

# ---------------------------------------------------------------- C28
M("C28", "expo summary as gauge", (PR, 'write_type(&sanitized_name, "summary", &mut w)?;', 'write_type(&sanitized_name, "gauge", &mut w)?;'))
M("C28", "expo quote unescaped", (PR, '            b\'"\' => s.write_all(b"\\\\\\"")?,\n', ''))
M("C28", "expo newline as space", (PR, 'b\'\\n\' => s.write_all(b"\\\\n")?,', 'b\'\\n\' => s.write_all(b" ")?,'))
M("C28", "expo tab escaped", (PR, "            c => s.write_all(&[c])?,\n", "            b'\\t' => s.write_all(b\"\\\\t\")?,\n            c => s.write_all(&[c])?,\n"))
M("C28", "expo not cumulative", (PR, "w.write_all((val + running_sum).to_string().as_bytes())?;", "w.write_all(val.to_string().as_bytes())?;"))
M("C28", "expo sum late", (PR, "w.write_all((val + running_sum).to_string().as_bytes())?;", "w.write_all(running_sum.to_string().as_bytes())?;"))
M("C28", "expo running set", (PR, "running_sum += val;", "running_sum = val;"))
M("C28", "expo sum of kind", (PR, "                    let sum_value = value.samples_sum().unwrap_or(0.0);\n", "                    let sum_value = value.sum().unwrap_or(0.0);\n"))
M("C28", "expo quantile gone", (PR, "0.95, 0.99, 0.999] {", "0.95, 0.999] {"))
M("C28", "expo quantile other", (PR, "w.write_all(value.query(*q).unwrap().to_string().as_bytes())?;", "w.write_all(value.query(1.0 - *q).unwrap().to_string().as_bytes())?;"))
M("C28", "expo seen per metric", (PR, "    let mut seen: HashSet<String> = HashSet::new();\n    for value in aggrs {\n", "    for value in aggrs {\n        let mut seen: HashSet<String> = HashSet::new();\n"))
M("C28", "expo seen raw name", (PR, '                    if seen.insert(sanitized_name.clone()) {\n                        write_type(&sanitized_name, "gauge", &mut w)?;', '                    if seen.insert(value.name.clone()) {\n                        write_type(&sanitized_name, "gauge", &mut w)?;'))
M("C28", "expo tags of the point only", (PR, "                        for (k, v) in value.tags(default) {\n                            w.write_all(b\", \")?;\n                            write_kv(k, v, &mut w)?;\n                        }\n                        w.write_all(b\"} \")?;\n\n                        w.write_all((val", "                        for (k, v) in value.tags(&TagMap::default()) {\n                            w.write_all(b\", \")?;\n                            write_kv(k, v, &mut w)?;\n                        }\n                        w.write_all(b\"} \")?;\n\n                        w.write_all((val"))
M("C28", "expo tags from second", (PR, "        write_kv(fk, fv, w)?;\n        for (k, v) in iter {", "        write_kv(fk, fv, w)?;\n        for (k, v) in iter.skip(1) {"))
M("C28", "expo key as value", (PR, "        for (k, v) in iter {\n            w.write_all(b\", \")?;\n            write_kv(k, v, w)?;", "        for (k, v) in iter {\n            w.write_all(b\", \")?;\n            write_kv(v, k, w)?;"))
M("C28", "expo inf", (PR, 'Bound::PosInf => "+Inf".to_string(),', 'Bound::PosInf => "inf".to_string(),'))
M("C28", "expo inf skipped", (PR, "                        running_sum += val;\n", "                        running_sum += val;\n                        if let Bound::PosInf = bound {\n                            continue;\n                        }\n"))
M("C28", "expo sum before type", (PR, '                    write_metric(&sanitized_name, value.tags(default), v, &mut w)?;\n                }\n            }\n            AggregationMethod::Set', '                    write_metric(&value.name, value.tags(default), v, &mut w)?;\n                }\n            }\n            AggregationMethod::Set'))
M("C28", "expo zero gauges left out", (PR, "if let Some(v) = value.set() {", "if let Some(v) = value.set().filter(|v| *v != 0.0) {"))
M("C28", "expo stops at nan", (PR, "        let sanitized_name: String = sanitize(&value.name);\n", "        let sanitized_name: String = sanitize(&value.name);\n        if sanitized_name.is_empty() {\n            break;\n        }\n"))
M("C28", "expo sanitize dot", (PR, "| b':' | b'_' => new_name.push(*c),", "| b':' | b'_' | b'.' => new_name.push(*c),"))
M("C28", "expo sanitize colon", (PR, "| b':' | b'_' => new_name.push(*c),", "| b'_' => new_name.push(*c),"))
M("C28", "expo sanitize drop", (PR, "            _ => new_name.push(b'_'),\n", "            0x80..=0xff => {}\n            _ => new_name.push(b'_'),\n"))
M("C28", "expo sanitize y", (PR, "b'a'...b'z' | b'A'", "b'a'...b'y' | b'A'"))
Q("C28", "expo format", (PR, '''    w.write_all(name.as_bytes())?;
    write_tags(tags, w)?;
    w.write_all(b" ")?;
    w.write_all(v.to_string().as_bytes())?;
    w.write_all(b"\\n")''', '''    w.write_all(name.as_bytes())?;
    write_tags(tags, w)?;
    write!(w, " {}\\n", v)'''))
Q("C28", "expo type at once", (PR, '''    w.write_all(b"# TYPE ")?;
    w.write_all(name.as_bytes())?;
    w.write_all(b" ")?;
    w.write_all(tname.as_bytes())?;
    w.write_all(b"\\n")''', '''    let line = format!("# TYPE {} {}\\n", name, tname);
    w.write_all(line.as_bytes())'''))
Q("C28", "expo tname early", (PR, '''        match value.kind() {
            AggregationMethod::Sum => {
                if let Some(v) = value.sum() {
                    if seen.insert(sanitized_name.clone()) {
                        write_type(&sanitized_name, "counter", &mut w)?;
                    }''', '''        match value.kind() {
            AggregationMethod::Sum => {
                if let Some(v) = value.sum() {
                    let first = seen.insert(sanitized_name.clone());
                    if first {
                        write_type(&sanitized_name, "counter", &mut w)?;
                    }'''))
Q("C28", "expo contains", (PR, '''                    if seen.insert(sanitized_name.clone()) {
                        write_type(&sanitized_name, "counter", &mut w)?;
                    }''', '''                    if !seen.contains(&sanitized_name) {
                        seen.insert(sanitized_name.clone());
                        write_type(&sanitized_name, "counter", &mut w)?;
                    }'''))
Q("C28", "expo running first", (PR, '''                        w.write_all((val + running_sum).to_string().as_bytes())?;
                        running_sum += val;
''', '''                        running_sum += val;
                        w.write_all(running_sum.to_string().as_bytes())?;
'''))
Q("C28", "expo shared summary tail", (PR, '''                let sum_value = value.samples_sum().unwrap_or(0.0);
                write_metric(
                    &(sanitized_name.clone() + "_sum"),
                    value.tags(default),
                    sum_value,
                    &mut w,
                )?;
                write_metric(
                    &(sanitized_name.clone() + "_count"),
                    value.tags(default),
                    value.count() as f64,
                    &mut w,
                )?;
            }
        }
    }
''', '''                write_totals(&sanitized_name, &value, default, &mut w)?;
            }
        }
    }
'''), (PR, "fn write_text<W>(", '''fn write_totals<W>(name: &str, value: &Telemetry, default: &TagMap, w: &mut W) -> io::Result<()>
where
    W: Write,
{
    let sum_name = format!("{}_sum", name);
    write_metric(&sum_name, value.tags(default), value.samples_sum().unwrap_or(0.0), w)?;
    let count_name = format!("{}_count", name);
    write_metric(&count_name, value.tags(default), value.count() as f64, w)
}

fn write_text<W>('''))
Q("C28", "expo sanitize chars", (PR, '''    let name: String = name.to_string();
    let mut new_name: Vec<u8> = Vec::with_capacity(128);
    for c in name.as_bytes() {
        match *c {
            b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b':' | b'_' => new_name.push(*c),
            _ => new_name.push(b'_'),
        }
    }
    String::from_utf8(new_name).unwrap()''', '''    let mut new_name = String::with_capacity(name.len());
    for b in name.bytes() {
        let keep = b.is_ascii_alphanumeric() || b == b':' || b == b'_';
        new_name.push(if keep { b as char } else { '_' });
    }
    new_name'''))
Q("C28", "expo sanitize map", (PR, '''    let name: String = name.to_string();
    let mut new_name: Vec<u8> = Vec::with_capacity(128);
    for c in name.as_bytes() {
        match *c {
            b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b':' | b'_' => new_name.push(*c),
            _ => new_name.push(b'_'),
        }
    }
    String::from_utf8(new_name).unwrap()''', '''    name.bytes()
        .map(|c| match c {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b':' | b'_' => c as char,
            _ => '_',
        })
        .collect()'''))
Q("C28", "expo kv escaped first", (PR, '''    for b in v.as_bytes() {
        match *b {
            b'\\\\' => s.write_all(b"\\\\\\\\")?,
            b'"' => s.write_all(b"\\\\\\"")?,
            b'\\n' => s.write_all(b"\\\\n")?,
            c => s.write_all(&[c])?,
        }
    }
''', '''    let escaped = v.replace('\\\\', "\\\\\\\\").replace('"', "\\\\\\"").replace('\\n', "\\\\n");
    s.write_all(escaped.as_bytes())?;
'''))
M("C28", "expo kv escaped late", (PR, '''    for b in v.as_bytes() {
        match *b {
            b'\\\\' => s.write_all(b"\\\\\\\\")?,
            b'"' => s.write_all(b"\\\\\\"")?,
            b'\\n' => s.write_all(b"\\\\n")?,
            c => s.write_all(&[c])?,
        }
    }
''', '''    let escaped = v.replace('"', "\\\\\\"").replace('\\\\', "\\\\\\\\").replace('\\n', "\\\\n");
    s.write_all(escaped.as_bytes())?;
'''))
Q("C28", "expo tags peekable", (PR, '''    if let Some((fk, fv)) = iter.next() {
        w.write_all(b"{")?;
        write_kv(fk, fv, w)?;
        for (k, v) in iter {
            w.write_all(b", ")?;
            write_kv(k, v, w)?;
        }
        w.write_all(b"}")
    } else {
        w.write_all(b"")
    }''', '''    let (fk, fv) = match iter.next() {
        Some(kv) => kv,
        None => return Ok(()),
    };
    w.write_all(b"{")?;
    write_kv(fk, fv, w)?;
    while let Some((k, v)) = iter.next() {
        w.write_all(b", ")?;
        write_kv(k, v, w)?;
    }
    w.write_all(b"}")'''))

# ---------------------------------------------------------------- C16 lines
LLN, EVN = "src/metric/logline.rs", "src/metric/event.rs"
M("C16", "logline path value", (LLN, "path: path.into(),\n            value: value.into(),", "path: value.into(),\n            value: path.into(),"))
M("C16", "logline no time", (LLN, "time: time::now(),", "time: 0,"))
M("C16", "logline time other", (LLN, "        self.time = time;\n        self\n", "        self.time = time;\n        self.tags = None;\n        self\n"))
M("C16", "logline time kept", (LLN, "        self.time = time;\n        self\n", "        if time > self.time {\n            self.time = time;\n        }\n        self\n"))
M("C16", "logline field swapped", (LLN, "self.fields.insert(key.into(), val.into());", "self.fields.insert(val.into(), key.into());"))
M("C16", "logline field once", (LLN, "self.fields.insert(key.into(), val.into());", "let k: String = key.into();\n        if !self.fields.contains_key(&k) {\n            self.fields.insert(k, val.into());\n        }"))
M("C16", "event log no time", (EVN, "Event::Log(ref log) => Some(log.time),\n            Event::TimerFlush(_)", "Event::Log(_) | Event::TimerFlush(_)"))
Q("C16", "logline built then set", (LLN, """        LogLine {
            path: path.into(),
            value: value.into(),
            time: time::now(),
            tags: Default::default(),
            fields: Default::default(),
        }""", """        let at = time::now();
        let mut l = LogLine {
            path: path.into(),
            value: String::new(),
            time: at,
            tags: None,
            fields: TagMap::default(),
        };
        l.value = value.into();
        l"""))
Q("C16", "logline time struct", (LLN, "        self.time = time;\n        self\n", "        LogLine { time: time, ..self }\n"))
Q("C16", "logline field named", (LLN, "self.fields.insert(key.into(), val.into());", "let (k, v): (String, String) = (key.into(), val.into());\n        let _ = self.fields.insert(k, v);"))
Q("C16", "event if let", (EVN, """        match *self {
            Event::Telemetry(ref telem) => Some(telem.timestamp),
            Event::Log(ref log) => Some(log.time),
            Event::TimerFlush(_) | Event::Shutdown | Event::Raw { .. } => None,
        }""", """        if let Event::Telemetry(ref telem) = *self {
            return Some(telem.timestamp);
        }
        if let Event::Log(ref log) = *self {
            return Some(log.time);
        }
        None"""))

# ---------------------------------------------------------------- C33 naps
ACK = "src/metric/ackbag.rs"
M("C33", "nap halves", (ACK, "current_nap_time * 2", "current_nap_time / 2"))
M("C33", "nap forever longer", (ACK, "min(max_nap_time, current_nap_time * 2)", "current_nap_time * 2"))
M("C33", "nap max", (ACK, "min(max_nap_time, current_nap_time * 2)", "std::cmp::max(max_nap_time, current_nap_time * 2)"))
M("C33", "nap nothing", (ACK, "from_millis(5)", "from_millis(0)"))
M("C33", "nap minutes", (ACK, "from_millis(250)", "from_secs(250)"))
M("C33", "nap spins", (ACK, "self.wait_for_callback(key, thread::sleep);", "self.wait_for_callback(key, |_| thread::yield_now());"))
Q("C33", "nap loop", (ACK, """        let mut wait = true;
        while wait {
            match self.props_for(key) {
                Some(props) => wait = props.acks_received() == 0,
                _ => wait = false,
            }
            if wait {
                cb(current_nap_time);
                current_nap_time = min(max_nap_time, current_nap_time * 2);
            }
        }""", """        loop {
            match self.props_for(key) {
                Some(ref props) if props.acks_received() == 0 => {}
                _ => return,
            }
            cb(current_nap_time);
            current_nap_time += current_nap_time;
            if current_nap_time > max_nap_time {
                current_nap_time = max_nap_time;
            }
        }"""), (ACK, "use std::cmp::min;\n", ""))
Q("C33", "nap millis", (ACK, "let mut current_nap_time = time::Duration::from_millis(5);", "let mut nap: u64 = 5;"), (ACK, """                cb(current_nap_time);
                current_nap_time = min(max_nap_time, current_nap_time * 2);""", """                cb(time::Duration::from_millis(nap));
                nap = min(max_nap_time, nap * 2);"""), (ACK, "let max_nap_time = time::Duration::from_millis(250);", "let max_nap_time = 250;"))

M("C14", "payload interrupted ends", (NB, """                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,

                Err(e) => return Err(e.into()),
            }
        }

        // We""", """                Err(e) => return Err(e.into()),
            }
        }

        // We"""))
M("C14", "payload counts down", (NB, "self.payload_pos += bytes_read;", "self.payload_pos -= bytes_read;"))
Q("C14", "payload interrupted match", (NB, """                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,

                Err(e) => return Err(e.into()),
            }
        }

        // We""", """                Err(e) => match e.kind() {
                    io::ErrorKind::Interrupted => {}
                    _ => return Err(e.into()),
                },
            }
        }

        // We"""))

# ---------------------------------------------------------------- C36
TIM, MAIN = "src/time.rs", "src/bin/cernan.rs"
M("C36", "clock millis", (TIM, "let now = Utc::now().timestamp() as usize;", "let now = Utc::now().timestamp_millis() as usize;"))
M("C36", "clock start zero", (TIM, "AtomicUsize::new(Utc::now().timestamp() as usize)", "AtomicUsize::new(0)"))
M("C36", "clock slow", (TIM, "from_millis(500)", "from_secs(500)"))
M("C36", "clock once", (TIM, "        NOW.store(now, order);\n", "        NOW.store(now, order);\n        if now == 0 {\n            return;\n        }\n"))
M("C36", "clock sampled once", (TIM, "    loop {\n        thread::sleep(dur);\n        let now = Utc::now().timestamp() as usize;\n", "    let now = Utc::now().timestamp() as usize;\n    loop {\n        thread::sleep(dur);\n"))
M("C36", "clock narrow", (TIM, "NOW.load(Ordering::Relaxed) as i64", "i64::from(NOW.load(Ordering::Relaxed) as i32)"))
M("C36", "clock only forward", (TIM, "        NOW.store(now, order);\n", "        if now > NOW.load(order) {\n            NOW.store(now, order);\n        }\n"))
M("C36", "clock not started", (MAIN, """    cernan::thread::spawn(move |_poll| {
        cernan::time::update_time();
    });
""", ""))
M("C36", "clock started late", (MAIN, """    cernan::thread::spawn(move |_poll| {
        cernan::time::update_time();
    });
""", ""), (MAIN, "    signal.recv().unwrap();\n", """    signal.recv().unwrap();
    cernan::thread::spawn(move |_poll| {
        cernan::time::update_time();
    });
"""))
M("C36", "clock dates swapped", (TIM, "None if timestamp < 0 =>", "None if timestamp > 0 =>"))
M("C36", "clock dates end", (TIM, "match NaiveDateTime::from_timestamp_opt(timestamp, 0) {", "match Some(NaiveDateTime::from_timestamp(timestamp, 0)) {"))
Q("C36", "clock while", (TIM, """    let dur = time::Duration::from_millis(500);
    loop {
        thread::sleep(dur);
        let now = Utc::now().timestamp() as usize;
        let order = Ordering::Relaxed;
        NOW.store(now, order);
    }""", """    loop {
        let at = Utc::now();
        NOW.store(at.timestamp() as usize, Ordering::SeqCst);
        thread::sleep(time::Duration::from_millis(250));
        thread::sleep(time::Duration::from_millis(250));
    }"""))
Q("C36", "clock helper", (TIM, "        let now = Utc::now().timestamp() as usize;\n", "        let now = wall();\n"), (TIM, "AtomicUsize::new(Utc::now().timestamp() as usize)", "AtomicUsize::new(wall())"), (TIM, "/// Return the current time in epoch", "fn wall() -> usize {\n    Utc::now().timestamp() as usize\n}\n\n/// Return the current time in epoch"))
Q("C36", "clock dates if let", (TIM, """    match NaiveDateTime::from_timestamp_opt(timestamp, 0) {
        Some(datetime) => datetime,
        None if timestamp < 0 => MIN_DATE.and_hms(0, 0, 0),
        None => MAX_DATE.and_hms(23, 59, 59),
    }""", """    if let Some(datetime) = NaiveDateTime::from_timestamp_opt(timestamp, 0) {
        return datetime;
    }
    if timestamp >= 0 {
        MAX_DATE.and_hms(23, 59, 59)
    } else {
        MIN_DATE.and_hms(0, 0, 0)
    }"""))
Q("C36", "clock thread", (MAIN, """    cernan::thread::spawn(move |_poll| {
        cernan::time::update_time();
    });
""", """    start_clock();
"""), (MAIN, "fn main() {", "fn start_clock() {\n    cernan::thread::spawn(|_poll| cernan::time::update_time());\n}\n\nfn main() {"))

# ---------------------------------------------------------------- C35
TH = "src/thread.rs"
M("C35", "sock first address", (TCP, "for addr in ips {", "for addr in ips.into_iter().take(1) {"))
M("C35", "sock same token", (TCP, "mio::Token::from(listeners.count())", "mio::Token::from(listeners.count().saturating_sub(1))"))
M("C35", "sock one accept", (TCP, """                        handler.handle_stream(rchans, &poller, stream);
                    });
""", """                        handler.handle_stream(rchans, &poller, stream);
                    });
                    return Ok(());
"""))
M("C35", "sock aborted ends", (TCP, """                    ErrorKind::ConnectionAborted
                    | ErrorKind::Interrupted
                    | ErrorKind::TimedOut => {""", "                    ErrorKind::Interrupted => {"))
M("C35", "sock no reaping", (TCP, "if listener_token == self.stream_events_token {", "if listener_token == self.stream_events_token && false {"))
M("C35", "sock unregistered", (TCP, """                        poller
                            .register(
                                &stream,
                                mio::Token(0),
                                mio::Ready::readable(),
                                mio::PollOpt::edge(),
                            )
                            .unwrap();

""", ""))
M("C35", "sock forwards dropped", (TCP, "let rchans = chans.to_owned();", "let rchans = chans[..1].to_owned();"))
M("C35", "sock oneshot", (TCP, "                mio::Token::from(idx),\n                mio::Ready::readable(),\n                mio::PollOpt::edge(),", "                mio::Token::from(idx),\n                mio::Ready::readable(),\n                mio::PollOpt::edge() | mio::PollOpt::oneshot(),"))
M("C35", "thr listed first", (TH, """            f(poller);

            let mut joinable = joinable_arc.lock().unwrap();
            joinable.push(id);
""", """            {
                let mut joinable = joinable_arc.lock().unwrap();
                joinable.push(id);
            }
            f(poller);
"""))
M("C35", "thr id reused", (TH, "        let thread_id = self.thread_id;\n        self.thread_id += 1;\n", "        let thread_id = self.threads.len();\n"))
M("C35", "thr handle lost", (TH, "        self.threads.insert(id, handler);\n", "        if self.threads.is_empty() {\n            self.threads.insert(id, handler);\n        }\n"))
M("C35", "thr one reaped", (TH, "while let Some(id) = joinable.pop() {", "if let Some(id) = joinable.pop() {"))
M("C35", "thr shutdown joins only", (TH, "self.threads.drain().for_each(|(_, h)| h.shutdown());", "self.threads.drain().for_each(|(_, h)| h.join());"))
M("C35", "thr no signal", (TH, """        self.shutdown_event
            .set_readiness(mio::Ready::readable())""", """        self.shutdown_event
            .set_readiness(mio::Ready::empty())"""))
M("C35", "thr join before signal", (TH, """        self.shutdown_event
            .set_readiness(mio::Ready::readable())
            .expect("Failed to notify child thread of shutdown!");
        self.join();""", """        let ev = self.shutdown_event.clone();
        self.join();
        ev.set_readiness(mio::Ready::readable())
            .expect("Failed to notify child thread of shutdown!");"""))
M("C35", "thr owner told when many", (TH, "            if let Some(readiness) = thread_event_readiness {", "            if joinable.len() > 1 {\n                return;\n            }\n            if let Some(readiness) = thread_event_readiness {"))
Q("C35", "sock count first", (TCP, """        let (stream_events, stream_events_readiness) = mio::Registration::new2();
        let stream_events_token = mio::Token::from(listeners.count());
""", """        let stream_events_token = mio::Token::from(listeners.count());
        let (stream_events, stream_events_readiness) = mio::Registration::new2();
"""))
Q("C35", "sock accept helper", (TCP, """                    let rchans = chans.to_owned();
                    self.handlers.spawn(move |poller| {""", """                    let rchans: util::Channel = chans.iter().cloned().collect();
                    let _id = self.handlers.spawn(move |poller| {"""))
Q("C35", "sock errors if", (TCP, """                Err(e) => match e.kind() {
                    ErrorKind::ConnectionAborted
                    | ErrorKind::Interrupted
                    | ErrorKind::TimedOut => {
                        // Connection was closed before we could accept or
                        // we were interrupted. Press on.
                        continue;
                    }
                    ErrorKind::WouldBlock => {
                        //Out of connections to accept. Wrap it up.
                        return Ok(());
                    }
                    _ => return Err(e),
                },""", """                Err(e) => {
                    let kind = e.kind();
                    if kind == ErrorKind::WouldBlock {
                        return Ok(());
                    }
                    let again = match kind {
                        ErrorKind::ConnectionAborted | ErrorKind::Interrupted | ErrorKind::TimedOut => true,
                        _ => false,
                    };
                    if !again {
                        return Err(e);
                    }
                }"""))
Q("C35", "sock match tokens", (TCP, """                                if listener_token == self.stream_events_token {""", """                                let done = self.stream_events_token;
                                if done == listener_token {"""))
Q("C35", "thr reap loop", (TH, """        while let Some(id) = joinable.pop() {
            if let Some(handle) = self.threads.remove(&id) {
                handle.join();
            }
            joined.push(id);
        }""", """        loop {
            let id = match joinable.pop() {
                None => break,
                Some(id) => id,
            };
            joined.push(id);
            if let Some(handle) = self.threads.remove(&id) {
                handle.join();
            }
        }"""))
Q("C35", "thr drain for", (TH, "self.threads.drain().for_each(|(_, h)| h.shutdown());", "for (_, h) in self.threads.drain() {\n            h.shutdown();\n        }"))
Q("C35", "thr id inline", (TH, "        let id = self.next_thread_id();\n", "        let id = self.thread_id;\n        self.thread_id = id + 1;\n"), (TH, """    fn next_thread_id(&mut self) -> usize {
        let thread_id = self.thread_id;
        self.thread_id += 1;
        thread_id
    }

""", ""))
Q("C35", "thr listed in block", (TH, """            let mut joinable = joinable_arc.lock().unwrap();
            joinable.push(id);
""", """            {
                joinable_arc.lock().unwrap().push(id);
            }
"""))
Q("C35", "thr drain reap", (TH, """        while let Some(id) = joinable.pop() {
            if let Some(handle) = self.threads.remove(&id) {
                handle.join();
            }
            joined.push(id);
        }""", """        for id in joinable.drain(..) {
            if let Some(handle) = self.threads.remove(&id) {
                handle.join();
            }
            joined.push(id);
        }"""))

# ---------------------------------------------------------------- C25
CFG = "src/config.rs"
M("C25", "cfg key", (CFG, 'res.flush_interval = parse_flush_interval(snk, "flush_interval").unwrap_or(args.flush_interval);', 'res.flush_interval = parse_flush_interval(snk, "flush-interval").unwrap_or(args.flush_interval);'))
M("C25", "cfg flush ms", (CFG, "(*i as u64 * flushes_per_second())", "(*i as u64)"))
M("C25", "cfg flush float", (CFG, "Some((f * flushes_per_second() as f64) as u64)", "Some(*f as u64 * flushes_per_second())"))
M("C25", "cfg flush narrow", (CFG, "Some(*i as u64 * flushes_per_second())", "Some(u64::from(*i as u8) * flushes_per_second())"))
M("C25", "cfg port narrow", (CFG, '.expect("could not parse sinks.wavefront.port")\n                        as u16', '.expect("could not parse sinks.wavefront.port")\n                        as u8 as u16'))
M("C25", "cfg age swap", (CFG, 'snk.get("age_threshold")', 'snk.get("bin_width")'))
M("C25", "cfg pad sum", (CFG, 'sum: tbl.get("sum").map_or(false', 'sum: tbl.get("set").map_or(false'))
M("C25", "cfg pad default", (CFG, 'histogram: tbl.get("histogram").map_or(false', 'histogram: tbl.get("histogram").map_or(true'))
M("C25", "cfg percentiles first", (CFG, "for (k, v) in tbl.iter() {\n                        let v: f64", "for (k, v) in tbl.iter().take(4) {\n                        let v: f64"))
M("C25", "cfg percentiles skip", (CFG, "prcnt.push((k.clone(), v));", "if v > 0.0 {\n                            prcnt.push((k.clone(), v));\n                        }"))
M("C25", "cfg forwards skip", (CFG, ".to_vec()\n                                .iter()\n                                .map(|s| s.as_str().unwrap().to_string())\n                                .collect(),\n                            None => Vec::new(),\n                        };\n                        let config_path = format!(\"filters.delay", ".to_vec()\n                                .iter()\n                                .skip(1)\n                                .map(|s| s.as_str().unwrap().to_string())\n                                .collect(),\n                            None => Vec::new(),\n                        };\n                        let config_path = format!(\"filters.delay"))
M("C25", "cfg tolerance narrow", (CFG, "tolerance: tolerance as usize", "tolerance: tolerance as u8 as usize"))
M("C25", "cfg label", (CFG, 'format!("filters.flush_boundary.{}", name)', 'format!("filters.delay.{}", name)'))
M("C25", "cfg enabled", (CFG, "                if is_enabled {\n                    let mut res = StatsdConfig::default();", "                if is_enabled || name == \"primary\" {\n                    let mut res = StatsdConfig::default();"))
M("C25", "cfg disabled stops", (CFG, "                if !is_enabled {\n                    continue;", "                if !is_enabled {\n                    break;"))
M("C25", "cfg enabled default", (CFG, '.get("enabled")\n                    .unwrap_or(&toml::Value::Boolean(true))', '.get("enabled")\n                    .unwrap_or(&toml::Value::Boolean(false))'))
M("C25", "cfg kafka topic", (CFG, "res.topic_name = topic;", "res.topic_name = Some(topic.unwrap_or_default() + name);"))
M("C25", "cfg no tags", (CFG, "            res.tags = global_tags.clone();\n\n            res\n        });\n\n        args.native_sink_config", "            res\n        });\n\n        args.native_sink_config"))
M("C25", "cfg tag key", (CFG, "tags.insert(k.clone(), val);", "tags.insert(k.to_lowercase(), val);"))
M("C25", "cfg tag skip", (CFG, "tags.insert(k.clone(), val);", "if !val.is_empty() {\n                    tags.insert(k.clone(), val);\n                }"))
M("C25", "cfg file break", (CFG, "                        files.push(fl)\n                    }\n                    None => continue,", "                        files.push(fl)\n                    }\n                    None => break,"))
M("C25", "cfg file max", (CFG, ".unwrap_or(fl.max_read_bytes)", ".map(|x| x * 1024)\n                            .unwrap_or(fl.max_read_bytes)"))
M("C25", "cfg librdkafka", (CFG, "toml::Value::Boolean(b) => map.insert(key.clone(), format!(\"{}\", b))", "toml::Value::Boolean(b) => map.insert(key.clone(), format!(\"{}\", b as u8))"))
M("C25", "cfg librdkafka fallthrough", (CFG, "toml::Value::Integer(i) => map.insert(key.clone(), format!(\"{}\", i)),", "toml::Value::Integer(i) if i >= 0 => map.insert(key.clone(), format!(\"{}\", i)),"))
M("C25", "cfg bounds skip", (CFG, ".map(|v| v.as_float().unwrap())", ".filter(|v| v.as_float().unwrap() > 0.0)\n                                            .map(|v| v.as_float().unwrap())"))
M("C25", "cfg error bound", (CFG, '.get("summarize_error_bound")\n', '.get("error_bound")\n'))
M("C25", "cfg scripts", (CFG, "script: Some(args.scripts_directory.join(path)),", "script: Some(path.to_path_buf()),"))
M("C25", "cfg own then global", (CFG, 'res.flush_interval = parse_flush_interval(snk, "flush_interval").unwrap_or(args.flush_interval);', 'res.flush_interval = ::std::cmp::max(args.flush_interval, parse_flush_interval(snk, "flush_interval").unwrap_or(args.flush_interval));'))
M("C25", "cfg queue files", (CFG, '.get("max-hopper-queue-files")', '.get("max-hopper-queue-bytes")'))
Q("C25", "cfg if let", (CFG, "    match table.get(key) {\n        Some(value) => match value {\n            toml::Value::Float(f) => Some((f * flushes_per_second() as f64) as u64),\n            toml::Value::Integer(i) => Some(*i as u64 * flushes_per_second()),\n            _ => panic!(\n                \"Expected number of seconds for flush_interval config parameter.\"\n            ),\n        },\n        _ => None,\n    }", "    let value = table.get(key)?;\n    let n = flushes_per_second();\n    if let toml::Value::Integer(i) = *value {\n        return Some(n * i as u64);\n    }\n    match value.as_float() {\n        Some(f) => Some((n as f64 * f) as u64),\n        None => panic!(\"Expected number of seconds for flush_interval config parameter.\"),\n    }"))
Q("C25", "cfg map_or", (CFG, "let parse_line = if let Some(parse_line) = tbl.get(\"parse_line\") {\n                    parse_line\n                        .as_bool()\n                        .expect(\"could not parse parse_line as boolean\")\n                } else {\n                    false\n                };", "let parse_line = tbl.get(\"parse_line\").map_or(false, |p| {\n                    p.as_bool().expect(\"could not parse parse_line as boolean\")\n                });"))
Q("C25", "cfg helper", (CFG, "            res.port = snk.get(\"port\")\n                .map(|p| {\n                    p.as_integer()\n                        .expect(\"could not parse sinks.wavefront.port\")\n                        as u16\n                })\n                .unwrap_or(res.port);", "            res.port = parse_port(snk, \"sinks.wavefront\").unwrap_or(res.port);"), (CFG, "fn parse_flush_interval(", "fn parse_port(table: &toml::Value, what: &str) -> Option<u16> {\n    table.get(\"port\").map(|p| match p.as_integer() {\n        Some(p) => p as u16,\n        None => panic!(\"could not parse {}.port\", what),\n    })\n}\n\nfn parse_flush_interval("))
Q("C25", "cfg forwards helper", (CFG, "let fwds = match tbl.get(\"forwards\") {\n                            Some(fwds) => fwds\n                                .as_array()\n                                .expect(\"forwards must be an array\")\n                                .to_vec()\n                                .iter()\n                                .map(|s| s.as_str().unwrap().to_string())\n                                .collect(),\n                            None => Vec::new(),\n                        };", "let fwds = parse_forwards(tbl);"), (CFG, "fn parse_flush_interval(", "fn parse_forwards(table: &toml::Value) -> Vec<String> {\n    let mut forwards = Vec::new();\n    if let Some(fwds) = table.get(\"forwards\") {\n        for s in fwds.as_array().expect(\"forwards must be an array\") {\n            forwards.push(s.as_str().unwrap().to_string());\n        }\n    }\n    forwards\n}\n\nfn parse_flush_interval("))
Q("C25", "cfg enabled map_or", (CFG, "                let is_enabled = tbl\n                    .get(\"enabled\")\n                    .unwrap_or(&toml::Value::Boolean(true))\n                    .as_bool()\n                    .expect(\"must be a bool\");\n                if is_enabled {\n                    let mut res = StatsdConfig::default();", "                let is_enabled = tbl.get(\"enabled\").map_or(true, |e| e.as_bool().expect(\"must be a bool\"));\n                if is_enabled {\n                    let mut res = StatsdConfig::default();"))
Q("C25", "cfg if let path", (CFG, "                match tbl.get(\"tolerance\") {\n                    Some(tol) => {\n                        let tolerance =\n                            tol.as_integer().expect(\"tolerance must be an integer\");", "                match tbl.get(\"tolerance\").map(|t| t.as_integer().expect(\"tolerance must be an integer\")) {\n                    Some(tolerance) => {"))
Q("C25", "cfg files filter", (CFG, "for tbl in src.as_table().unwrap().values() {", "for (_, tbl) in src.as_table().unwrap() {"))
Q("C25", "cfg percentiles map", (CFG, "                    let mut prcnt = Vec::default();\n                    for (k, v) in tbl.iter() {\n                        let v: f64 =\n                            v.as_float().expect(\"percentile value must be a float\");\n                        prcnt.push((k.clone(), v));\n                    }\n                    prcnt\n", "                    tbl.iter()\n                        .map(|(k, v)| {\n                            (k.clone(), v.as_float().expect(\"percentile value must be a float\"))\n                        })\n                        .collect()\n"))
Q("C25", "cfg tags as_ref", (CFG, "        Some(tbl) => {\n            let mut tags = TagMap::default();\n            let ttbl = tbl.as_table().unwrap();\n            for (k, v) in ttbl.iter() {\n                let val = match v.as_str() {\n                    Some(s) => s.to_string(),\n                    None => {", "        Some(tbl) => {\n            let mut tags = TagMap::default();\n            for (k, v) in tbl.as_table().expect(\"tags must be a table\") {\n                let val = match *v {\n                    toml::Value::String(ref s) => s.clone(),\n                    _ => {"))
Q("C25", "cfg delay filter_map", (CFG, """            let mut filters: HashMap<String, DelayFilterConfig> = HashMap::new();
            for (name, tbl) in fltr.as_table().unwrap().iter() {
                match tbl.get("tolerance") {
                    Some(tol) => {
                        let tolerance =""", """            fltr.as_table().unwrap().iter().filter_map(|(name, tbl)| {
                match tbl.get("tolerance") {
                    Some(tol) => {
                        let tolerance ="""), (CFG, """                        filters.insert(config_path, config);
                    }
                    None => continue,
                }
            }
            filters
        });

        args.json_encode_filters""", """                        Some((config_path, config))
                    }
                    None => None,
                }
            }).collect()
        });

        args.json_encode_filters"""))
Q("C25", "cfg json map", (CFG, """            let mut filters: HashMap<String, JSONEncodeFilterConfig> = HashMap::new();
            for (name, tbl) in fltr.as_table().unwrap().iter() {
""", """            fltr.as_table().unwrap().iter().map(|(name, tbl)| {
"""), (CFG, """                filters.insert(config_path, config);
            }
            filters
        });

        args.flush""", """                (config_path, config)
            }).collect()
        });

        args.flush"""))
Q("C25", "cfg statsd filter", (CFG, """            for (name, tbl) in src.as_table().unwrap().iter() {
                let is_enabled = tbl
                    .get("enabled")
                    .unwrap_or(&toml::Value::Boolean(true))
                    .as_bool()
                    .expect("must be a bool");
                if is_enabled {
                    let mut res = StatsdConfig""", """            let is_enabled = |tbl: &toml::Value| {
                tbl.get("enabled").map_or(true, |e| e.as_bool().expect("must be a bool"))
            };
            for (name, tbl) in src.as_table().unwrap().iter().filter(|&(_, t)| is_enabled(t)) {
                {
                    let mut res = StatsdConfig"""))
M("C25", "cfg statsd filter port", (CFG, """for (name, tbl) in src.as_table().unwrap().iter() {
                let is_enabled = tbl
                    .get("enabled")
                    .unwrap_or(&toml::Value::Boolean(true))
                    .as_bool()
                    .expect("must be a bool");
                if is_enabled {
                    let mut res = StatsdConfig""", """for (name, tbl) in src.as_table().unwrap().iter().filter(|&(_, t)| t.get("port").is_some()) {
                let is_enabled = tbl
                    .get("enabled")
                    .unwrap_or(&toml::Value::Boolean(true))
                    .as_bool()
                    .expect("must be a bool");
                if is_enabled {
                    let mut res = StatsdConfig"""))
M("C25", "cfg delay filter_map none", (CFG, """            let mut filters: HashMap<String, DelayFilterConfig> = HashMap::new();
            for (name, tbl) in fltr.as_table().unwrap().iter() {
                match tbl.get("tolerance") {
                    Some(tol) => {
                        let tolerance =""", """            fltr.as_table().unwrap().iter().filter_map(|(name, tbl)| {
                match tbl.get("tolerance") {
                    Some(tol) => {
                        if name.is_empty() {
                            return None;
                        }
                        let tolerance ="""), (CFG, """                        filters.insert(config_path, config);
                    }
                    None => continue,
                }
            }
            filters
        });

        args.json_encode_filters""", """                        Some((config_path, config))
                    }
                    None => None,
                }
            }).collect()
        });

        args.json_encode_filters"""))
M("C25", "cfg file first kb", (CFG, "fp.read_to_string(&mut buffer)", "fp.take(65536).read_to_string(&mut buffer)"))
M("C25", "cfg enabled ignored", (CFG, """                if is_enabled {
                    let mut res = StatsdConfig""", """                if is_enabled || !is_enabled {
                    let mut res = StatsdConfig"""))
M("C25", "cfg enabled not read", (CFG, """                let is_enabled = tbl
                    .get("enabled")
                    .unwrap_or(&toml::Value::Boolean(true))
                    .as_bool()
                    .expect("must be a bool");
                if !is_enabled {
                    continue;
                }

                let mut res = KafkaConfig""", """                let mut res = KafkaConfig"""))
# ---------------------------------------------------------------- C24 by name, C37
INT = "src/source/internal.rs"
FLU = "src/source/flush.rs"
M("C24", "by name tags lost", (INT, "        .fold(telem, |acc, &(k, v)| acc.overlay_tag(k, v));", "        .fold(telem, |acc, &(k, v)| if v.is_empty() { acc } else { acc.overlay_tag(k, v) });"))
M("C24", "by name first tag", (INT, "        .iter()\n        .fold(telem", "        .iter()\n        .take(1)\n        .fold(telem"))
M("C24", "by name swapped", (INT, "acc.overlay_tag(k, v)", "acc.overlay_tag(v, k)"))
M("C24", "by name set", (INT, "        .value(value)\n        .kind(AggregationMethod::Sum)", "        .value(value)\n        .kind(AggregationMethod::Set)"))
M("C24", "by name zero", (INT, "    Q.push(telem);", "    if value > 0.0 {\n        Q.push(telem);\n    }"))
M("C24", "by name twice", (INT, "    Q.push(telem);", "    if name.is_empty() {\n        Q.push(telem.clone());\n    }\n    Q.push(telem);"))
Q("C24", "by name for", (INT, """    telem = metadata
        .unwrap_or_default()
        .iter()
        .fold(telem, |acc, &(k, v)| acc.overlay_tag(k, v));""", """    if let Some(tags) = metadata {
        for (k, v) in tags {
            telem = telem.overlay_tag(k, v);
        }
    }"""))
Q("C24", "by name for default", (INT, """    telem = metadata
        .unwrap_or_default()
        .iter()
        .fold(telem, |acc, &(k, v)| acc.overlay_tag(k, v));""", """    for &(k, v) in metadata.unwrap_or_else(Vec::new).iter() {
        telem = telem.overlay_tag(k, v);
    }"""))
M("C37", "pulse from zero", (FLU, "            idx += 1;\n            sleep(flush_duration);\n            send(&mut chans, metric::Event::TimerFlush(idx));", "            sleep(flush_duration);\n            send(&mut chans, metric::Event::TimerFlush(idx));\n            idx += 1;"))
M("C37", "pulse by two", (FLU, "idx += 1;", "idx += flushes_per_second() / 50;"))
M("C37", "pulse slow", (FLU, "Duration::from_millis(1000 / flushes_per_second())", "Duration::from_millis(flushes_per_second())"))
M("C37", "pulse ends", (FLU, "            send(&mut chans, metric::Event::TimerFlush(idx));", "            send(&mut chans, metric::Event::TimerFlush(idx));\n            if idx == 1 << 32 {\n                return;\n            }"))
M("C37", "pulse wraps", (FLU, "idx += 1;", "idx = (idx + 1) & 0xffff;"))
M("C37", "pulse skip", (FLU, "            send(&mut chans, metric::Event::TimerFlush(idx));", "            if chans.len() > 1 || idx % 2 == 0 {\n                send(&mut chans, metric::Event::TimerFlush(idx));\n            }"))
M("C37", "internal slow", (INT, "from_millis(1_000)", "from_millis(10_000)"))
M("C37", "internal waits", (INT, "poller.poll(&mut events, Some(slp))", "poller.poll(&mut events, if chans.is_empty() { Some(slp) } else { None })"))
M("C37", "files unfair", (FS, "if bytes_read > self.max_read_bytes {", "if bytes_read > self.max_read_bytes && sz > self.max_read_bytes {"))
M("C37", "files bytes last", (FS, "bytes_read += sz;", "bytes_read = sz;"))
M("C37", "files lines", (FS, "bytes_read += sz;", "bytes_read += 1;"))
M("C37", "files seldom", (FS, "                if lim > 2_048 {\n                    backoff_cap = 2_048;", "                if lim > 8_192 {\n                    backoff_cap = 8_192;"))
M("C37", "files spin", (FS, "let lim = backoff_cap.saturating_mul(2);", "let lim = backoff_cap.saturating_mul(1);"))
M("C37", "files stay slow", (FS, "            } else {\n                backoff_cap = 1;\n            }", "            }"))
M("C37", "files wait after", (FS, "let backoff = backoff_cap.saturating_sub(global_bytes_read);", "let backoff = backoff_cap.saturating_add(global_bytes_read);"))
M("C37", "files bytes kept", (FS, "            for (path, mut watcher) in fp_map.drain() {\n                let mut bytes_read: usize = 0;", "            let mut bytes_read: usize = 0;\n            for (path, mut watcher) in fp_map.drain() {"))
Q("C37", "pulse for", (FLU, "        let mut idx: u64 = 0;\n        loop {", "        for idx in 1u64.. {"), (FLU, "            idx += 1;\n", ""))
Q("C37", "pulse idx", (FLU, "        let mut idx: u64 = 0;\n        loop {", "        let mut next: u64 = 1;\n        loop {"), (FLU, "            idx += 1;\n            sleep(flush_duration);\n            send(&mut chans, metric::Event::TimerFlush(idx));", "            sleep(flush_duration);\n            send(&mut chans, metric::Event::TimerFlush(next));\n            next = next.wrapping_add(1);"))
Q("C37", "files min", (FS, "                if lim > 2_048 {\n                    backoff_cap = 2_048;\n                } else {\n                    backoff_cap = lim;\n                }", "                backoff_cap = ::std::cmp::min(lim, 2_048);"))
Q("C37", "files while let", (FS, "                while let Ok(sz) = watcher.read_line(&mut buffer) {\n                    if sz > 0 {\n                        bytes_read += sz;", "                while let Ok(sz) = watcher.read_line(&mut buffer) {\n                    if sz > 0 {\n                        bytes_read = bytes_read.saturating_add(sz);"))
Q("C37", "files break first", (FS, "                    } else {\n                        break;\n                    }\n                    if bytes_read > self.max_read_bytes {\n                        break;\n                    }", "                    }\n                    if sz == 0 || self.max_read_bytes < bytes_read {\n                        break;\n                    }"))
Q("C37", "files shift", (FS, "let lim = backoff_cap.saturating_mul(2);", "let lim = backoff_cap << 1;"))
# ---------------------------------------------------------------- C38
HTTP = "src/http.rs"
RECON = """                self.stream = connect(&self.host, self.port);
                if self.stream.is_none() {"""
M("C38", "peer influx scheme swapped", (INF, 'if config.secure { "https" } else { "http" }', 'if config.secure { "http" } else { "https" }'))
M("C38", "peer influx never secure", (INF, 'if config.secure { "https" } else { "http" }', 'if config.secure && config.port == 443 { "https" } else { "http" }'))
M("C38", "peer influx host db", (INF, "scheme, config.host, config.port, config.db\n", "scheme, config.db, config.port, config.host\n"))
M("C38", "peer influx other write", (INF, '"{}://{}:{}/write?db={}",', '"{}://{}:{}/query?db={}",'))
M("C38", "peer es scheme", (ES, 'if self.secure { "https" } else { "http" }', 'if self.secure { "http" } else { "http" }'))
M("C38", "peer es host", (ES, 'proto, self.host, self.port));', 'proto, "localhost", self.port));'))
M("C38", "peer kafka settings skipped", (KF, "for (key, value) in map.iter() {\n                producer_config", "for (key, value) in map.iter().skip(1) {\n                producer_config"))
M("C38", "peer kafka some settings", (KF, "                producer_config.set(key, value);\n", "                if !key.starts_with(\"queue\") {\n                    producer_config.set(key, value);\n                }\n"))
M("C38", "peer kafka broker key", (KF, '"bootstrap.servers"', '"bootstrap.server"'))
M("C38", "peer kafka first broker", (KF, "&config.brokers.unwrap()[..]", "config.brokers.unwrap().split(',').next().unwrap()"))
M("C38", "peer kafka topic", (KF, "topic_name: config.topic_name.unwrap(),", "topic_name: config.topic_name.unwrap().to_lowercase(),"))
M("C38", "peer prometheus host", ("src/sink/prometheus.rs", "config.host.as_str(), config.port.to_string()", '"localhost", config.port.to_string()'))
M("C38", "peer http fixed", (HTTP, "tiny_http::Server::http(host_port)", 'tiny_http::Server::http("0.0.0.0:9102")'))
M("C38", "peer http error ends", (HTTP, "                        handler.handle(request);\n", "                        handler.handle(request);\n                        break;\n"))
M("C38", "peer http not answered", (HTTP, "                        handler.handle(request);\n", "                        if request.body_length().is_none() {\n                            handler.handle(request);\n                        }\n"))
M("C38", "peer http never stops", (HTTP, "Ok(num_events) if num_events > 0 =>", "Ok(num_events) if num_events > 1 =>"))
M("C38", "peer http stops at once", (HTTP, "Ok(num_events) if num_events > 0 =>", "Ok(num_events) if num_events >= 0 =>"))
M("C38", "peer native first address", (NAT, "for ip in ips {", "for ip in ips.into_iter().take(1) {"))
M("C38", "peer native none", (NAT, "Ok(stream) => return Some(stream),", "Ok(stream) => {\n                        if stream.set_nodelay(true).is_err() {\n                            return None;\n                        }\n                    }"))
M("C38", "peer native refused ends", (NAT, """                    Err(e) => info!(
                        "Unable to connect to proxy at {} using addr {} with error \\
                         {}",
                        host, ip, e
                    ),
                }""", """                    Err(_) => return None,
                }"""))
M("C38", "peer wavefront port", (WAV, "let addrs = (host, port).to_socket_addrs();", "let addrs = (host, 2878).to_socket_addrs();"))
M("C38", "peer native stream stays", (NAT, "            if delivery_failure {\n                self.stream = None\n            }\n", "            if delivery_failure && self.delivery_attempts > 1 {\n                self.stream = None\n            }\n"))
M("C38", "peer wavefront stream stays", (WAV, "self.stream = None\n", "delivery_failure = false;\n"))
M("C38", "peer native not kept", (NAT, RECON, RECON.replace("self.stream = connect(&self.host, self.port);\n                if self.stream.is_none()", "let again = connect(&self.host, self.port);\n                if self.delivery_attempts < 10 {\n                    self.stream = again;\n                }\n                if self.stream.is_none()")))
M("C38", "peer native other host", (NAT, "self.stream = connect(&self.host, self.port);", 'self.stream = connect("localhost", self.port);'))
M("C38", "peer wavefront port at init", (WAV, "let stream = connect(&config.host, config.port);", "let stream = connect(&config.host, 2878);"))
M("C38", "peer setting constant", (INF, "            flush_interval: config.flush_interval,\n            client,", "            flush_interval: 60,\n            client,"))
M("C38", "peer interval none", (WAV, "    fn flush_interval(&self) -> Option<u64> {\n        Some(self.flush_interval)", "    fn flush_interval(&self) -> Option<u64> {\n        Some(self.flush_interval.max(10))"))
M("C38", "peer setting rewritten", (NAT, RECON, "                self.port = 1972;\n" + RECON))
M("C38", "peer tags from default", (NAT, "tags: config.tags,", "tags: Default::default(),"))
Q("C38", "peer influx url helper", (INF, """        let scheme = if config.secure { "https" } else { "http" };
        let uri = Url::parse(&format!(
            "{}://{}:{}/write?db={}",
            scheme, config.host, config.port, config.db
        ))
        .expect("malformed url");
""", """        let uri = match Url::parse(&endpoint(&config)) {
            Ok(uri) => uri,
            Err(e) => panic!("malformed url: {}", e),
        };
"""), (INF, "impl Sink<InfluxDBConfig> for InfluxDB {\n", """fn endpoint(config: &InfluxDBConfig) -> String {
    let scheme = match config.secure {
        true => "https",
        false => "http",
    };
    let at = format!("{}:{}", config.host, config.port);
    format!("{}://{}/write?db={}", scheme, at, config.db)
}

impl Sink<InfluxDBConfig> for InfluxDB {
"""))
Q("C38", "peer kafka producer helper", (KF, """        let mut producer_config = ClientConfig::new();
        if let Some(ref map) = config.rdkafka_config {
            for (key, value) in map.iter() {
                producer_config.set(key, value);
            }
        }
        producer_config.set("bootstrap.servers", &config.brokers.unwrap()[..]);
""", """        let brokers = config.brokers.unwrap();
        let mut producer_config = ClientConfig::new();
        match config.rdkafka_config {
            None => {}
            Some(map) => {
                for (key, value) in &map {
                    producer_config.set(key.as_str(), value.as_str());
                }
            }
        }
        producer_config.set("bootstrap.servers", brokers.as_str());
"""))
Q("C38", "peer native connect plain", (NAT, """            let ips: Vec<_> = srv.collect();
            for ip in ips {
                match TcpStream::connect(ip) {
                    Ok(stream) => return Some(stream),
                    Err(e) => info!(
                        "Unable to connect to proxy at {} using addr {} with error \\
                         {}",
                        host, ip, e
                    ),
                }
            }
            None
""", """            for ip in srv {
                if let Ok(stream) = TcpStream::connect(&ip) {
                    return Some(stream);
                }
                info!("Unable to connect to proxy at {} using addr {}", host, ip);
            }
            None
"""))
Q("C38", "peer native flush result", (NAT, """            if delivery_failure {
                self.stream = None
            }
""", """            self.stream = if delivery_failure {
                None
            } else {
                self.stream.take()
            };
"""))
Q("C38", "peer reconnect match", (NAT, """                self.stream = connect(&self.host, self.port);
                if self.stream.is_none() {
                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
                }
""", """                match connect(&self.host, self.port) {
                    Some(stream) => self.stream = Some(stream),
                    None => {
                        self.delivery_attempts = self.delivery_attempts.saturating_add(1);
                    }
                }
"""))
Q("C38", "peer http if", (HTTP, """                    if let Some(request) = maybe_a_request {
                        handler.handle(request);
                    }
""", """                    match maybe_a_request {
                        None => continue,
                        Some(request) => handler.handle(request),
                    }
"""))
Q("C38", "peer prometheus server later", ("src/sink/prometheus.rs", """        let host_port =
            format!("{}:{}", config.host.as_str(), config.port.to_string());
        Prometheus {
            aggrs: sync::Arc::clone(&aggrs),
            age_threshold: config.age_threshold,
            http_srv: Server::new(
                host_port,
                PrometheusHandler {
                    tags: config.tags.clone(),
                    aggr: aggrs,
                    gzip: config.gzip,
                },
            ),
            tags: config.tags,
        }
""", """        let handler = PrometheusHandler {
            tags: config.tags.clone(),
            aggr: sync::Arc::clone(&aggrs),
            gzip: config.gzip,
        };
        let at = format!("{}:{}", config.host, config.port);
        let http_srv = Server::new(at, handler);
        Prometheus {
            aggrs,
            http_srv,
            age_threshold: config.age_threshold,
            tags: config.tags,
        }
"""))

# ---------------------------------------------------------------- valves, Kafka's counts
M("C08", "valve es limit", (ES, "self.buffer.len() > 10_000", "self.buffer.len() >= 10_000"))
M("C08", "valve es open", (ES, "        if self.buffer.len() > 10_000 {\n            Valve::Closed\n        } else {\n            Valve::Open\n        }", "        if self.buffer.len() > 10_000 {\n            Valve::Open\n        } else {\n            Valve::Closed\n        }"))
M("C08", "valve kafka at limit", (KF, "if self.message_bytes < self.max_message_bytes {", "if self.message_bytes <= self.max_message_bytes {"))
M("C08", "valve kafka messages", (KF, "if self.message_bytes < self.max_message_bytes {", "if self.messages.len() < self.max_message_bytes {"))
Q("C08", "valve kafka match", (KF, """        if self.message_bytes < self.max_message_bytes {
            Valve::Open
        } else {
            Valve::Closed
        }""", """        match self.max_message_bytes <= self.message_bytes {
            true => Valve::Closed,
            false => Valve::Open,
        }"""))
M("C07", "valve kafka retry skips", (KF, "            let new_messages = retry_payload_and_keys\n                .iter()\n", "            let new_messages = retry_payload_and_keys\n                .iter()\n                .skip(1)\n"))
M("C07", "valve kafka retry or", (KF, "if payload.is_some() && key.is_some() {", "if payload.is_some() || key.is_some() {"))

# ---------------------------------------------------------------- Kafka's counts
M("C24", "kafkacount published twice", (KF, "                            inc_pub += 1;\n", "                            inc_pub += 2;\n"))
M("C24", "kafkacount retry as failure", (KF, "                                    inc_retry += 1;\n", "                                    inc_fail += 1;\n"))
M("C24", "kafkacount cancelled not counted", (KF, """                        error!("Failed in send to kafka broker, operation canceled");
                        inc_fail += 1;
""", """                        error!("Failed in send to kafka broker, operation canceled");
"""))
M("C24", "kafkacount swapped", (KF, "self.stats.increment_publish_failed(inc_fail);\n        self.stats.increment_retry(inc_retry);", "self.stats.increment_publish_failed(inc_retry);\n        self.stats.increment_retry(inc_fail);"))
M("C24", "kafkacount only when failed", (KF, "        self.stats.increment_publish_failed(inc_fail);\n", "        if inc_fail > 1 {\n            self.stats.increment_publish_failed(inc_fail);\n        }\n"))
M("C24", "kafkacount lost uncounted", (KF, "                        self.stats.increment_retry_failed(1);\n", ""))
M("C24", "kafkacount es buffer early", (ES, "ELASTIC_INTERNAL_BUFFER_LEN.store(self.buffer.len(), Ordering::Relaxed);", "ELASTIC_INTERNAL_BUFFER_LEN.store(self.buffer.capacity(), Ordering::Relaxed);"))
Q("C24", "kafkacount per message", (KF, "        let result = self.messages\n            .iter_mut()", "        let stats = &self.stats;\n        let result = self.messages\n            .iter_mut()"), (KF, "                            inc_pub += 1;\n", "                            stats.increment_publish(1);\n"), (KF, "        self.stats.increment_publish(inc_pub);\n", ""), (KF, "        let mut inc_pub = 0usize;\n", ""))
Q("C24", "kafkacount loop", (KF, """        let result = self.messages
            .iter_mut()
            .filter_map(|future| {
                let result = future.finalize();""", """        let stats = &self.stats;
        let result = self.messages
            .iter_mut()
            .filter_map(|future| {
                let result = future.finalize();"""), (KF, """        self.stats.increment_publish(inc_pub);
        self.stats.increment_publish_failed(inc_fail);
        self.stats.increment_retry(inc_retry);
""", """        stats.increment_retry(inc_retry);
        stats.increment_publish(inc_pub);
        stats.increment_publish_failed(inc_fail);
"""))

M("C37", "filestotal dropped", (FS, "                global_bytes_read = global_bytes_read.saturating_add(bytes_read);\n", "                global_bytes_read = bytes_read;\n"))
M("C37", "filestotal max", (FS, "                global_bytes_read = global_bytes_read.saturating_add(bytes_read);\n", "                if !lines.is_empty() {\n                    global_bytes_read = 0;\n                }\n"))
M("C37", "filestotal live only", (FS, "                global_bytes_read = global_bytes_read.saturating_add(bytes_read);\n", ""), (FS, "                    fp_map_alt.insert(path, watcher);\n", "                    fp_map_alt.insert(path, watcher);\n                } else {\n                    global_bytes_read = global_bytes_read.saturating_add(bytes_read);\n"))
M("C37", "filestotal outside", (FS, "        loop {\n            let mut global_bytes_read: usize = 0;\n", "        let mut global_bytes_read: usize = 0;\n        loop {\n"))
Q("C37", "filestotal plus", (FS, "                global_bytes_read = global_bytes_read.saturating_add(bytes_read);\n", "                global_bytes_read += bytes_read;\n"))
Q("C37", "filestotal per line", (FS, "                global_bytes_read = global_bytes_read.saturating_add(bytes_read);\n", ""), (FS, "                        bytes_read += sz;\n", "                        bytes_read += sz;\n                        global_bytes_read = global_bytes_read.saturating_add(sz);\n"))

M("C30", "tail seek end fails", (FW, "assert!(rdr.seek(io::SeekFrom::End(0)).is_ok());", "assert!(rdr.seek(io::SeekFrom::End(0)).is_err());"))
M("C30", "tail seek start fails", (FW, "assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());", "assert!(reader.seek(io::SeekFrom::Start(0)).is_err());"))
M("C30", "tail one byte lines", (FS, "                    if sz > 0 {\n", "                    if sz > 1 {\n"))
Q("C30", "tail seek let", (FW, "assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());", "reader.seek(io::SeekFrom::Start(0)).expect(\"cannot seek\");"))

M("C01", "fileserver idle is shutdown", (FS, "Ok(0) => {}", "Ok(1) => {}"))

# ---------------------------------------------------------------- Prometheus' answers and counts
M("C27", "promw drain gone", (PR, "                            samples.drain(0..top_idx);\n", "                            let _ = top_idx;\n"))
M("C27", "promw never trimmed", (PR, "if samples.len() > cap {", "if samples.len() > cap && samples.len() > 1000 {"))
M("C27", "promw unsorted", (PR, "        samples.sort_by_key(|&(key, _)| key);\n", ""), (PR, "let mut samples: Vec<(&String, &Accumulator)>", "let samples: Vec<(&String, &Accumulator)>"))
M("C28", "promw gzip empty", (PR, "                    enc = write_text(reportable, &self.tags, enc).unwrap();\n", "                    let _ = reportable;\n"))
M("C28", "promw gzip default tags", (PR, "enc = write_text(reportable, &self.tags, enc).unwrap();", "enc = write_text(reportable, &TagMap::default(), enc).unwrap();"))
M("C28", "promw empty answered", (PR, "if !buffer.is_empty() {\n            let content_type", "if buffer.len() > 2048 {\n            let content_type"))
M("C28", "promw gzip unlabelled", (PR, "            if self.gzip {\n                let content_encoding", "            if self.gzip && buffer.len() > 2048 {\n                let content_encoding"))
M("C28", "promw status", (PR, "StatusCode::from(200),", "StatusCode::from(204),"))
M("C28", "promw version", (PR, '"text/plain; version=0.0.4"', '"text/plain"'))
M("C28", "promw length", (PR, "Some(buffer.len()),", "Some(2048),"))
M("C28", "promw half", (PR, "                &buffer[..],\n", "                &buffer[..buffer.len() / 2],\n"))
M("C28", "promw tags dropped", (PR, "    write_tags(tags, w)?;\n    w.write_all(b\" \")?;\n    w.write_all(v.", "    let _ = tags;\n    w.write_all(b\" \")?;\n    w.write_all(v."))
Q("C28", "promw handle reshaped", (PR, """            buffer = match self.gzip {
                true => {
                    let mut enc = GzEncoder::new(buffer, Compression::fast());
                    enc = write_text(reportable, &self.tags, enc).unwrap();
                    enc.finish().unwrap()
                }
                false => write_text(reportable, &self.tags, buffer).unwrap(),
            };""", """            buffer = if !self.gzip {
                write_text(reportable, &self.tags, buffer).unwrap()
            } else {
                let enc = GzEncoder::new(buffer, Compression::fast());
                write_text(reportable, &self.tags, enc)
                    .unwrap()
                    .finish()
                    .unwrap()
            };"""))
M("C24", "promw purged unsaid", (PR, "                        purged += 1;\n", "                        purged = 1;\n"))
M("C24", "promw purged last", (PR, "total_purged += aggr.purge();", "total_purged = aggr.purge();"))
M("C24", "promw purged uncounted", (PR, "        PROMETHEUS_AGGR_WINDOWED_PURGED.fetch_add(total_purged, Ordering::Relaxed);\n", "        if total_purged > 10 {\n            PROMETHEUS_AGGR_WINDOWED_PURGED.fetch_add(total_purged, Ordering::Relaxed);\n        }\n"))
M("C24", "promw reportable", (PR, "            PROMETHEUS_AGGR_REPORTABLE.store(aggr.count(), Ordering::Relaxed);\n", "            if aggr.count() > 0 {\n                PROMETHEUS_AGGR_REPORTABLE.store(aggr.count(), Ordering::Relaxed);\n            }\n"))
M("C24", "promw delay", (PR, "            PROMETHEUS_RESPONSE_DELAY_SUM.fetch_add(us as usize, Ordering::Relaxed);\n", "            if us > 1.0 {\n                PROMETHEUS_RESPONSE_DELAY_SUM.fetch_add(1, Ordering::Relaxed);\n            }\n"))
Q("C24", "promw purge sum", (PR, """        let mut total_purged = 0;
        for aggr in self.data.values_mut() {
            total_purged += aggr.purge();
        }
        total_purged
""", """        self.data.values_mut().map(|aggr| aggr.purge()).sum()
"""))
Q("C24", "promw purge retain", (PR, """                let mut purged = 0;
                let mut i = 0;
                while i != samples.len() {
                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
                        samples.remove(i);
                        purged += 1;
                    } else {
                        i += 1;
                    }
                }
                purged
""", """                let before = samples.len();
                samples.retain(|s| (s.timestamp - time::now()).abs() <= (cap as i64));
                before - samples.len()
"""))

# --- C39
M("C39", "pad zero not skipped", (WAV, "Pad::Zero(_, _) => true,\n            Pad::Telem(x) => match x.kind()", "Pad::Zero(_, _) => false,\n            Pad::Telem(x) => match x.kind()"))
M("C39", "pad kinds swapped", (WAV, "AggregationMethod::Set => !pad_control.set", "AggregationMethod::Set => !pad_control.sum"))
M("C39", "pad kind inverted", (WAV, "AggregationMethod::Sum => !pad_control.sum", "AggregationMethod::Sum => pad_control.sum"))
M("C39", "pad zero at own time", (WAV, "Pad::Zero(x, _) | Pad::Telem(x) => Pad::Zero(x, ts),", "Pad::Zero(x, _) => Pad::Zero(x, ts), Pad::Telem(x) => Pad::Zero(x, x.timestamp),"))
M("C39", "pad other series", (WAV, "if x.hash() == y.hash() {", "if x.hash() != y.hash() {"))
M("C39", "pad skip ignored", (WAV, "                    if x.skip_pad(self.pad_control) {\n                        self.emit_q.push(y);", "                    if false && x.skip_pad(self.pad_control) {\n                        self.emit_q.push(y);"))
M("C39", "pad not marked", (WAV, "                                self.flush_padded.insert(x.hash());\n                                if", "                                if"))
M("C39", "pad not marked last", (WAV, "                            self.flush_padded.insert(x.hash());\n                            if", "                            if"))
M("C39", "pad any newer", (WAV, "                                if (x.timestamp() - ts) / self.span > 1 {", "                                if (x.timestamp() - ts) / self.span >= 1 {"))
M("C39", "pad last any newer", (WAV, "                            if (x.timestamp() - ts) / self.span > 1 {\n                                let sub_x =\n", "                            if (x.timestamp() - ts) / self.span > 2 {\n                                let sub_x =\n"))
M("C39", "pad zero off", (WAV, "x.clone().zero_at(x.timestamp().saturating_add(1));", "x.clone().zero_at(x.timestamp().saturating_add(2));"))
M("C39", "pad zeros swapped", (WAV, "                            self.emit_q.push(sub_y);\n                            self.emit_q.push(post_x);", "                            self.emit_q.push(post_x);\n                            self.emit_q.push(sub_y);"))
M("C39", "pad point lost", (WAV, "                                    self.emit_q.push(y);\n                                    self.emit_q.push(x);", "                                    self.emit_q.push(x);"))
M("C39", "pad order", (WAV, "                                    self.emit_q.push(y);\n                                    self.emit_q.push(x);", "                                    self.emit_q.push(x);\n                                    self.emit_q.push(y);"))
M("C39", "pad span one", (WAV, "                        0 | 1 => {", "                        0 => {"))
M("C39", "pad span abs", (WAV, "match (x.timestamp() - y.timestamp()).abs() / self.span {", "match (x.timestamp() - y.timestamp()) / self.span {"))
M("C39", "pad points first", (WAV, """        let next_y = match self.emit_q.pop() {
            Some(x) => Some(x),
            None => self.orig.next().map(|x| Pad::Telem(x)),
        };""", """        let next_y = match self.orig.next() {
            Some(x) => Some(Pad::Telem(x)),
            None => self.emit_q.pop(),
        };"""))
M("C39", "pad seen not kept", (WAV, "            last_seen.insert(k, v);\n", "            let _ = (k, v);\n"))
M("C39", "pad seen not given back", (WAV, "        self.last_seen = last_seen;\n", ""))
M("C39", "pad seen kept once", (WAV, "            last_seen.insert(k, v);\n", "            last_seen.entry(k).or_insert(v);\n"))
M("C39", "pad noted for points only", (WAV, "            tmp_last_seen.insert(pad.hash(), pad.timestamp());\n", "            if let Pad::Telem(t) = pad { if t.persist { tmp_last_seen.insert(pad.hash(), pad.timestamp()); } }\n"))
M("C39", "pad by flush interval", (WAV, "padding(aggrs.iter(), self.bin_width, &last_seen, self.pad_control)", "padding(aggrs.iter(), self.flush_interval as i64, &last_seen, self.pad_control)"))
M("C39", "pad kinds default", (WAV, "padding(aggrs.iter(), self.bin_width, &last_seen, self.pad_control)", "padding(aggrs.iter(), self.bin_width, &last_seen, PadControl::default())"))
M("C39", "wavefront ageless", (WAV, "if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {", "if telem.timestamp - time::now() <= (age_threshold as i64) {"))
M("C39", "wavefront age edge", (WAV, "if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {", "if (telem.timestamp - time::now()).abs() < (age_threshold as i64) {"))
Q("C39 C08 C29 C24", "pad pull helper", (WAV, """        let next_x = match self.emit_q.pop() {
            Some(x) => Some(x),
            None => self.orig.next().map(|x| Pad::Telem(x)),
        };
        let next_y = match self.emit_q.pop() {
            Some(x) => Some(x),
            None => self.orig.next().map(|x| Pad::Telem(x)),
        };""", """        let next_x = self.pull();
        let next_y = self.pull();"""), (WAV, "impl<'a> Iterator for Padding<'a> {", "impl<'a> Padding<'a> {\n    fn pull(&mut self) -> Option<Pad<'a>> {\n        if let Some(x) = self.emit_q.pop() {\n            return Some(x);\n        }\n        match self.orig.next() {\n            Some(x) => Some(Pad::Telem(x)),\n            None => None,\n        }\n    }\n}\n\nimpl<'a> Iterator for Padding<'a> {"))
Q("C39", "pad or_else", (WAV, """        let next_y = match self.emit_q.pop() {
            Some(x) => Some(x),
            None => self.orig.next().map(|x| Pad::Telem(x)),
        };""", """        let next_y = self.emit_q.pop().or_else(|| None);
        let next_y = if next_y.is_some() { next_y } else { self.orig.next().map(Pad::Telem) };"""))
Q("C39", "pad gap helper", (WAV, "                            if (x.timestamp() - ts) / self.span > 1 {", "                            if wide(x.timestamp(), *ts, self.span) {"), (WAV, "fn padding<'a>(", "fn wide(a: i64, b: i64, span: i64) -> bool {\n    let gap = (a - b) / span;\n    gap >= 2\n}\n\nfn padding<'a>("))
Q("C39", "pad extend", (WAV, "        for (k, v) in tmp_last_seen {\n            last_seen.insert(k, v);\n        }\n", "        last_seen.extend(tmp_last_seen);\n"))
Q("C39", "pad contains folded", (WAV, "                let flush_padded = self.flush_padded.contains(&x.hash());\n                if !flush_padded {\n                    if let Some(ts) = self.last_seen.get(&x.hash()) {\n                        if x", "                let hash = x.hash();\n                if !self.flush_padded.contains(&hash) {\n                    if let Some(ts) = self.last_seen.get(&hash) {\n                        if x"))
Q("C39", "wavefront age early", (WAV, """        if let Some(age_threshold) = self.age_threshold {
            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
                self.aggrs.add(telem);
            }
        } else {
            self.aggrs.add(telem);
        }""", """        if let Some(age_threshold) = self.age_threshold {
            let age = (time::now() - telem.timestamp).abs();
            if age > age_threshold as i64 {
                return;
            }
        }
        self.aggrs.add(telem);"""))
M("C29", "wavefront tags left out", (WAV, "                    self.stats.push_str(\" \");\n                    fmt_tags(value.tags(&self.tags), &mut tag_buf);\n                    self.stats.push_str(&tag_buf);\n                    self.stats.push_str(\"\\n\");\n\n                    tag_buf.clear();\n                }\n            }\n            AggregationMethod::Set", "                    self.stats.push_str(\" \");\n                    self.stats.push_str(&tag_buf);\n                    self.stats.push_str(\"\\n\");\n\n                    tag_buf.clear();\n                }\n            }\n            AggregationMethod::Set"))
M("C15", "mean of histogram multiplied", (TEL, "sum / (count as f64)", "sum * (count as f64)"))
M("C15", "mean of summary is its sum", (TEL, "Value::Quantiles { ref ckms, .. } => ckms.cma().unwrap_or(0.0),", "Value::Quantiles { sum, .. } => sum,"))
M("C15", "samples of histogram but one", (TEL, "                .iter()\n                .map(|x| x.1 as f64)", "                .iter()\n                .skip(1)\n                .map(|x| x.1 as f64)"))
M("C15", "insert asserts overridden", (TEL, "assert!(self.override_count.is_none());\n        match self.value {\n            Some(Value::Set(_)) => {", "assert!(self.override_count.is_some());\n        match self.value {\n            Some(Value::Set(_)) => {"))
Q("C15", "mean match", (TEL, """                if let Some(sum) = histo.sum() {
                    let count = histo.count();
                    assert!(count > 0);
                    sum / (count as f64)
                } else {
                    0.0
                }""", """                match histo.sum() {
                    Some(total) => total / (histo.count() as f64),
                    None => 0.0,
                }"""))
M("C33", "wavefront never recovers", (WAV, "                    self.delivery_attempts = 0;\n", ""))
M("C33", "native never recovers", (NAT, "                    self.delivery_attempts = 0;\n", ""))
M("C33", "wavefront recovers to one", (WAV, "                    self.delivery_attempts = 0;\n", "                    self.delivery_attempts = 1;\n"))
M("C33", "influx never recovers", (INF, """                        self.delivery_attempts =
                            self.delivery_attempts.saturating_sub(1);
""", ""))
M("C33", "wavefront starts failed", (WAV, "            delivery_attempts: 0,\n", "            delivery_attempts: 4,\n"))
Q("C33", "influx recovers at once", (INF, """                        self.delivery_attempts =
                            self.delivery_attempts.saturating_sub(1);
""", "                        self.delivery_attempts = 0;\n"))
M("C38", "wavefront only without a host", (WAV, 'if config.host == "" {', 'if config.host != "" {'))
M("C16", "point keeps its time", (TEL, "        self.timestamp = time;\n        self\n    }\n}", "        let _ = time;\n        self\n    }\n}"))
M("C15", "is_sum is not", (TEL, "self.kind() == AggregationMethod::Sum\n", "self.kind() != AggregationMethod::Sum\n"))
# ---------------------------------------------------------------- C29
SETV = '''                    if let Some(val) = telem.set() {
                        buffer.push_str(&telem.name);
                        fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                        buffer.push_str(&tag_buf);
                        buffer.push_str(" ");
                        buffer.push_str("value=");
                        buffer.push_str(get_from_cache(&mut value_cache, val));
                        buffer.push_str(" ");
                        buffer.push_str(get_from_cache(
                            &mut time_cache,
                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
                        ));
                        buffer.push_str("\\n");
                        tag_buf.clear();
                    }
'''
M("C29", "line influx set tags kept", (INF, SETV, SETV.replace("                        tag_buf.clear();\n", "")))
M("C29", "line influx micros", (INF, SETV, SETV.replace("1_000_000_000", "1_000_000")))
M("C29", "line influx set value of sum", (INF, SETV, SETV.replace("telem.set()", "telem.sum()")))
M("C29", "line influx no tags", (INF, SETV, SETV.replace("                        buffer.push_str(&tag_buf);\n", "")))
M("C29", "line influx tags at set only", (INF, SETV, SETV.replace("&self.tags", "&Default::default()")))
M("C29", "line influx percentile", (INF, "&[0.25, 0.50, 0.75, 0.90, 0.99, 1.0]", "&[0.25, 0.50, 0.75, 0.90, 0.99]"))
M("C29", "line influx inf", (INF, '"le_inf".to_string()', '"le_inf ".to_string()'))
M("C29", "line influx first bin", (INF, "                        for &(bound, count) in bin_iter {\n", "                        for &(bound, count) in bin_iter.skip(1) {\n"))
M("C29", "line influx skip zero", (INF, "                        for &(bound, count) in bin_iter {\n", "                        for &(bound, count) in bin_iter {\n                            if count == 0 {\n                                continue;\n                            }\n"))
M("C29", "line influx equals", (INF, '        s.push_str("=");\n        s.push_str(v);', '        s.push_str("=");\n        s.push_str(k);'))
M("C29", "line influx one missing", (INF, "for telem in telems.iter() {", "for telem in telems.iter().skip(1) {"))
M("C29", "line influx cache wrong", (INF, "Ok(idx) => &cache[idx].1,", "Ok(idx) => &cache[idx.saturating_sub(1)].1,"))
M("C29", "line influx cache at end", (INF, "let str_val = val.to_string();\n            cache.insert(idx, (val, str_val));\n            &cache[idx].1", "let str_val = val.to_string();\n            cache.push((val, str_val));\n            &cache[idx].1"))
M("C29", "line influx cache first", (INF, "probe.0.partial_cmp(&val).unwrap_or(cmp::Ordering::Less)", "probe.0.partial_cmp(&val).unwrap_or(cmp::Ordering::Equal)"))
M("C29", "line wavefront cache nan", (WAV, "probe.0.partial_cmp(&val).unwrap_or(cmp::Ordering::Less)", "probe.0.partial_cmp(&val).unwrap()"))
M("C29", "line wavefront mean as count", (WAV, "self.stats.push_str(get_from_cache(&mut value_cache, mean));", "self.stats.push_str(get_from_cache(&mut count_cache, count));"))
M("C29", "line wavefront count of percentiles", (WAV, "let count = value.count();", "let count = self.percentiles.len();"))
M("C29", "line wavefront quantile", (WAV, "value.query(quant).unwrap(),", "value.query(1.0 - quant).unwrap(),"))
M("C29", "line wavefront tags lost", (WAV, '''                        self.stats.push_str(&tag_buf);
                        self.stats.push_str("\\n");
                    }

                    tag_buf.clear();''', '''                        self.stats.push_str(&tag_buf);
                        self.stats.push_str("\\n");
                        tag_buf.clear();
                    }

                    tag_buf.clear();'''))
M("C29", "line wavefront zero time", (WAV, "                        .timestamp(ts);\n", "                        .timestamp(value.timestamp);\n"))
M("C29", "line wavefront zero one", (WAV, ".value(0.0)", ".value(1.0)"))
M("C29", "line wavefront kept out", (WAV, "                    self.fmt_val(\n                        value,", "                    if value.name.is_empty() {\n                        continue;\n                    }\n                    self.fmt_val(\n                        value,"))
M("C29", "line wavefront tag separator", (WAV, '            s.push_str(" ");\n            s.push_str(k);', '            s.push_str(",");\n            s.push_str(k);'))
M("C29", "line wavefront time twice", (WAV, '''                    self.stats.push_str(get_from_cache(&mut value_cache, v));
                    self.stats.push_str(" ");
                    self.stats
                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
                    self.stats.push_str(" ");
                    fmt_tags(value.tags(&self.tags), &mut tag_buf);
                    self.stats.push_str(&tag_buf);
                    self.stats.push_str("\\n");

                    tag_buf.clear();
                }
            }
            AggregationMethod::Set''', '''                    self.stats
                        .push_str(get_from_cache(&mut time_cache, value.timestamp));
                    self.stats.push_str(" ");
                    self.stats.push_str(get_from_cache(&mut value_cache, v));
                    self.stats.push_str(" ");
                    fmt_tags(value.tags(&self.tags), &mut tag_buf);
                    self.stats.push_str(&tag_buf);
                    self.stats.push_str("\\n");

                    tag_buf.clear();
                }
            }
            AggregationMethod::Set'''))
Q("C29", "line influx format", (INF, SETV, '''                    if let Some(val) = telem.set() {
                        fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                        let ns = telem.timestamp.saturating_mul(1_000_000_000) as u64;
                        buffer.push_str(&format!("{}{} value={} {}\\n", telem.name, tag_buf, val, ns));
                        tag_buf.clear();
                    }
'''))
Q("C29", "line influx cleared first", (INF, SETV, SETV.replace("                        fmt_tags(telem.tags", "                        tag_buf.clear();\n                        fmt_tags(telem.tags")))
Q("C29", "line influx own buffer", (INF, SETV, SETV.replace("                        buffer.push_str(&telem.name);\n", "                        let mut tag_buf = String::new();\n                        buffer.push_str(&telem.name);\n")))
Q("C29", "line influx merged", (INF, SETV, SETV.replace('                        buffer.push_str(" ");\n                        buffer.push_str("value=");\n', '                        buffer.push_str(" value=");\n').replace('push_str("\\n")', "push('\\n')")))
Q("C29", "line influx helper", (INF, SETV, SETV.split("{\n", 1)[0] + "{\n                        self.line(buffer, &telem.name, telem, val);\n                    }\n"), (INF, "    /// Convert the slice into a payload", '''    fn line(&self, buffer: &mut String, name: &str, telem: &Telemetry, val: f64) {
        buffer.push_str(name);
        fmt_tags(telem.tags(&self.tags), buffer);
        let ns = telem.timestamp.saturating_mul(1_000_000_000) as u64;
        buffer.push_str(" value=");
        buffer.push_str(&val.to_string());
        buffer.push_str(" ");
        buffer.push_str(&ns.to_string());
        buffer.push_str("\\n");
    }

    /// Convert the slice into a payload'''))
Q("C29", "line wavefront mean named", (WAV, '                self.stats.push_str(".mean");\n                self.stats.push_str(" ");\n', '                self.stats.push_str(".mean ");\n'))
Q("C29", "line wavefront zero first", (WAV, '''                    let zero = value
                        .clone()
                        .thaw()
                        .value(0.0)
                        .harden()
                        .unwrap()
                        .timestamp(ts);
''', '''                    let thawed = value.clone().thaw().value(0.0);
                    let hard = thawed.harden().expect("a point worth nothing");
                    let zero = hard.timestamp(ts);
'''))
Q("C29", "line wavefront tuples", (WAV, '''                for tup in &self.percentiles {
                    let stat: &String = &tup.0;
                    let quant: f64 = tup.1;
''', '''                for &(ref stat, quant) in self.percentiles.iter() {
'''))
