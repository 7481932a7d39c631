use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use y86_sim::framework::{CpuSim, MemData, PropOrderBuilder, MEM_SIZE};

/// 64-bit word as four 16-bit limbs, least significant first.
pub fn w(x: u64) -> Value {
    json!([x & 0xffff, x >> 16 & 0xffff, x >> 32 & 0xffff, x >> 48])
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

fn image(j: &Value) -> Box<[u8; MEM_SIZE]> {
    let mut m = vec![0u8; MEM_SIZE].into_boxed_slice();
    for seg in j.as_array().unwrap() {
        let a = seg[0].as_u64().unwrap() as usize;
        for (i, b) in seg[1].as_array().unwrap().iter().enumerate() {
            m[a + i] = b.as_u64().unwrap() as u8;
        }
    }
    m.try_into().unwrap()
}

fn memdiff(old: &[u8], new: &[u8]) -> Vec<(usize, u8)> {
    let mut r = vec![];
    if old == new {
        return r;
    }
    for (c, (o, n)) in old.chunks(256).zip(new.chunks(256)).enumerate() {
        if o != n {
            for i in 0..o.len() {
                if o[i] != n[i] {
                    r.push((c * 256 + i, n[i]));
                }
            }
        }
    }
    r
}

fn isa(j: &Value) -> Value {
    let img = image(&j["img"]);
    let bin = *img;
    match catch_unwind(AssertUnwindSafe(move || y86_sim::isa::simulate(bin, false))) {
        Err(e) => json!({"outcome": "panic", "msg": panic_msg(e)}),
        Ok(Err(e)) => json!({"outcome": "err", "msg": format!("{e:#}")}),
        Ok(Ok(r)) => json!({
            "outcome": "ok",
            "regs": r.regs.iter().map(|x| w(*x)).collect::<Vec<_>>(),
            "pc": w(r.pc as u64),
            "n": r.n_insts,
            "zf": r.cc.zf, "sf": r.cc.sf, "of": r.cc.of,
            "m": memdiff(&img[..], &r.bin[..]),
        }),
    }
}

fn sig(sim: &dyn CpuSim, names: &[&str]) -> Option<String> {
    for st in sim.get_stage_info() {
        for (n, v) in st.signals {
            if names.contains(&n.as_str()) {
                return Some(v);
            }
        }
    }
    None
}

/// "ConditionCode { sf: false, of: false, zf: true }" -> [zf, sf, of]
fn parse_cc(s: &str) -> Value {
    let f = |k: &str| -> Option<bool> {
        let i = s.find(&format!("{k}: "))?;
        Some(s[i + k.len() + 2..].starts_with("true"))
    };
    match (f("zf"), f("sf"), f("of")) {
        (Some(z), Some(s), Some(o)) => json!([z, s, o]),
        _ => json!([]),
    }
}

fn sim(j: &Value) -> Value {
    let img = image(&j["img"]);
    let mem = MemData::init(*img);
    let arch = j["arch"].as_str().unwrap().to_string();
    let max = j["max"].as_u64().unwrap();
    let style = j["style"].as_str().unwrap_or("step").to_string();
    let log = j["log"].as_bool().unwrap_or(true);
    let extra = j["extra"].as_u64().unwrap_or(0);
    let mut cycles: Vec<Value> = vec![];
    let mut prev_mem = img.to_vec();
    let mut prev_regs = [0u64; 16];
    let mut fin = json!({});
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut sim = y86_sim::architectures::create_sim(arch, mem.clone(), false);
        prev_regs = sim.registers();
        let start_regs = prev_regs;
        let start_term = sim.is_terminate();
        let start_count = sim.cycle_count();
        let start_cost = sim.cycle_cost();
        let start_mem = memdiff(&img[..], &mem.read()[..]);
        let mut left = extra;
        while sim.cycle_count() < max && (!sim.is_terminate() || left > 0) {
            if sim.is_terminate() {
                left -= 1;
            }
            let phase = match style.as_str() {
                "phase" => true,
                "mix" => sim.cycle_count() % 2 == 1,
                _ => false,
            };
            if phase {
                sim.initiate_next_cycle();
                sim.propagate_signals();
            } else {
                sim.step();
            }
            if log {
                let regs = sim.registers();
                let rd: Vec<Value> = (0..16)
                    .filter(|i| regs[*i] != prev_regs[*i])
                    .map(|i| json!([i, w(regs[i])]))
                    .collect();
                prev_regs = regs;
                let md = {
                    let cur = mem.read();
                    let d = memdiff(&prev_mem, &cur[..]);
                    for (a, b) in &d {
                        prev_mem[*a] = *b;
                    }
                    d
                };
                cycles.push(json!({
                    "pc": w(sim.program_counter()),
                    "r": rd, "m": md,
                    "t": sim.is_terminate(), "c": sim.cycle_count(), "k": sim.cycle_cost(),
                }));
            }
        }
        let cc = sig(&*sim, &["cc"]).map(|s| parse_cc(&s)).unwrap_or(json!([]));
        let stat = sig(&*sim, &["stat", "prog_stat"]).unwrap_or_default();
        fin = json!({
            "start_regs": start_regs.iter().map(|x| w(*x)).collect::<Vec<_>>(),
            "start_term": start_term, "start_count": start_count,
            "start_cost": start_cost, "start_m": start_mem,
            "regs": sim.registers().iter().map(|x| w(*x)).collect::<Vec<_>>(),
            "pc": w(sim.program_counter()),
            "term": sim.is_terminate(), "count": sim.cycle_count(),
            "cost": sim.cycle_cost(),
            "cc": cc, "stat": stat,
            "m": memdiff(&img[..], &mem.read()[..]),
        });
    }));
    match r {
        Ok(()) => json!({"outcome": "ok", "cycles": cycles, "fin": fin}),
        Err(e) => json!({"outcome": "panic", "msg": panic_msg(e), "cycles": cycles}),
    }
}

fn asm(j: &Value) -> Value {
    let src = j["src"].as_str().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| {
        y86_sim::assemble(src, y86_sim::AssembleOption::default()).map(|o| {
            let mem = o.obj.init_mem();
            let mut segs: Vec<(usize, Vec<u8>)> = vec![];
            for (i, b) in mem.iter().enumerate() {
                if *b != 0 {
                    match segs.last_mut() {
                        Some((a, v)) if *a + v.len() == i => v.push(*b),
                        _ => segs.push((i, vec![*b])),
                    }
                }
            }
            let mut lines = vec![];
            let mut k = 1;
            while let Some(l) = o.source.get_line(k) {
                lines.push(json!({
                    "addr": l.addr.map(w).unwrap_or(json!([])),
                    "label": l.label.clone().unwrap_or_default(),
                    "src": l.src,
                    "back": l.addr.and_then(|a| o.source.get_line_number_by_addr(a)).unwrap_or(0),
                }));
                k += 1;
            }
            let syms: Vec<Value> = o.obj.symbols.iter().map(|(k, v)| json!([k, w(*v)])).collect();
            json!({"outcome": "ok", "mem": segs, "lines": lines, "syms": syms, "yo": format!("{}", o)})
        })
    }));
    match r {
        Err(e) => json!({"outcome": "panic", "msg": panic_msg(e)}),
        Ok(Err(e)) => json!({"outcome": "err", "msg": format!("{e:#}")}),
        Ok(Ok(v)) => v,
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// Remove ANSI escape sequences.
fn plain(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            r.push(c);
        }
    }
    r
}

/// "lv.1: a b" lines -> [[name, level]...]
fn parse_order(s: &str) -> Vec<Value> {
    let mut r = vec![];
    for l in plain(s).lines() {
        if let Some(rest) = l.strip_prefix("lv.") {
            if let Some((n, names)) = rest.split_once(':') {
                for x in names.split_whitespace() {
                    r.push(json!([x, n.trim().parse::<u64>().unwrap_or(0)]));
                }
            }
        }
    }
    r
}

fn order(j: &Value) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = PropOrderBuilder::new();
        for op in j["ops"].as_array().unwrap() {
            let a = op[1].as_str().unwrap();
            match op[0].as_str().unwrap() {
                "unit" => b.add_unit_node(leak(a)),
                "in" => b.add_unit_input(leak(a), leak(op[2].as_str().unwrap())),
                "out" => b.add_unit_output(leak(a), leak(op[2].as_str().unwrap())),
                "inter" => b.add_intermediate(leak(a)),
                "edge" => b.add_edge(a.to_string(), op[2].as_str().unwrap().to_string()),
                _ => panic!("bad op"),
            }
        }
        let o = b.build();
        (parse_order(&format!("{}", o)), format!("{:?}", o))
    }));
    match r {
        Ok((o, d)) => json!({"outcome": "ok", "order": o, "debug": d}),
        Err(e) => json!({"outcome": "panic", "msg": panic_msg(e)}),
    }
}

fn archorder(j: &Value) -> Value {
    let arch = j["arch"].as_str().unwrap().to_string();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let sim = y86_sim::architectures::create_sim(arch, MemData::init([0; MEM_SIZE]), false);
        let po = sim.proporder();
        json!({"outcome": "ok", "order": parse_order(&format!("{}", po)),
               "cost": sim.cycle_cost(), "debug": format!("{:?}", po)})
    }));
    r.unwrap_or_else(|e| json!({"outcome": "panic", "msg": panic_msg(e)}))
}

/// Run an architecture with no particular meaning; record every signal.
fn arch(j: &Value) -> Value {
    let img = image(&j["img"]);
    let name = j["arch"].as_str().unwrap().to_string();
    let max = j["max"].as_u64().unwrap();
    let phase = j["style"].as_str() == Some("phase");
    let mut cycles: Vec<Value> = vec![];
    let mut secs: Vec<Value> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut sim = y86_sim::architectures::create_sim(name, MemData::init(*img), false);
        for _ in 0..max {
            if sim.is_terminate() {
                break;
            }
            if phase {
                sim.propagate_signals();
            } else {
                sim.step();
            }
            let v: Vec<Value> = sim
                .get_stage_info()
                .into_iter()
                .flat_map(|s| s.signals)
                .map(|(n, v)| json!([n, v]))
                .collect();
            cycles.push(json!({"v": v, "pc": sim.program_counter(),
                               "t": sim.is_terminate(), "c": sim.cycle_count()}));
            secs = sim
                .get_stage_info()
                .into_iter()
                .map(|s| json!([s.name, s.signals.into_iter().map(|x| x.0).collect::<Vec<_>>()]))
                .collect();
            if phase {
                sim.initiate_next_cycle();
            }
        }
    }));
    match r {
        Ok(()) => json!({"outcome": "ok", "cycles": cycles, "secs": secs}),
        Err(e) => json!({"outcome": "panic", "msg": panic_msg(e), "cycles": cycles, "secs": secs}),
    }
}

fn literal(j: &Value) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        y86_sim::utils::parse_literal(j["s"].as_str().unwrap())
    }));
    match r {
        Ok(Some(v)) => json!({"outcome": "ok", "v": w(v)}),
        Ok(None) => json!({"outcome": "none"}),
        Err(e) => json!({"outcome": "panic", "msg": panic_msg(e)}),
    }
}

pub fn run(j: &Value) -> Value {
    match j["kind"].as_str().unwrap() {
        "isa" => isa(j),
        "sim" => sim(j),
        "asm" => asm(j),
        "order" => order(j),
        "archorder" => archorder(j),
        "arch" => arch(j),
        "literal" => literal(j),
        k => panic!("unknown job kind {k}"),
    }
}
