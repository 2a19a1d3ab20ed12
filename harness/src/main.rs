//! Runs the real transpiler on recorded cases and writes what it did.
//!
//!   jstx exec CASES OBS [--start N] [--threads T]   one call after another
//!   jstx words IN OUT                               snake_case of texts
//!   jstx enc                                        stdin JSON lines -> tagged JSON lines
//!
//! A case is one JSON line {"id":..,"kind":..,"parts":[{"schema":..,"calls":[{"t":"avro"|"bq",
//! "r":"cast"|"drop"|"panic","c":bool,"n":bool,"u":bool,"w":bool,"x":[] or [regex]}]}]}.
//! An observation is the case with its schema in tagged form and, per call,
//! out = {"r":"ok","v":tagged} or {"r":"fail","m":message}.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

/// One UTF-16 unit per character, so that lengths agree with the model's.
fn bmp(s: &str) -> String {
    s.chars()
        .map(|c| {
            let n = c as u32;
            if n > 0xFFFF { char::from_u32(0xE000 + n % 0x1900).unwrap() } else { c }
        })
        .collect()
}

fn enc(v: &Value) -> Value {
    match v {
        Value::Null => json!({"j":"n"}),
        Value::Bool(b) => json!({"j":"b","b":b}),
        Value::Number(n) => match n.as_i64() {
            Some(i) if i.abs() < 2_000_000_000 => json!({"j":"i","i":i}),
            _ => json!({"j":"f","f":n.to_string()}),
        },
        Value::String(s) => json!({"j":"s","s":bmp(s)}),
        Value::Array(a) => json!({"j":"a","a":a.iter().map(enc).collect::<Vec<_>>()}),
        Value::Object(o) => {
            let m: Map<String, Value> = o.iter().map(|(k, v)| (bmp(k), enc(v))).collect();
            json!({"j":"o","o":m})
        }
    }
}

/// Like enc, but values more than CUT deep go to a list of their own: the model
/// checker reads JSON of a limited depth only.
const CUT: usize = 40;
fn cut(v: &Value, d: usize, more: &mut Vec<Value>) -> Value {
    match v {
        Value::Array(a) if d > 0 => json!({"j":"a","a":a.iter().map(|x| cut(x, d - 1, more)).collect::<Vec<_>>()}),
        Value::Object(o) if d > 0 => {
            let m: Map<String, Value> = o.iter().map(|(k, v)| (bmp(k), cut(v, d - 1, more))).collect();
            json!({"j":"o","o":m})
        }
        Value::Array(_) | Value::Object(_) => {
            let x = cut(v, CUT, more);
            more.push(x);
            json!({"j":"@","i":more.len()})
        }
        _ => enc(v),
    }
}

/// The inverse of enc, for schemas that the model checker enumerated.
fn dec(v: &Value) -> Value {
    match v["j"].as_str().unwrap() {
        "n" => Value::Null,
        "b" => v["b"].clone(),
        "i" => v["i"].clone(),
        "f" => serde_json::from_str(v["f"].as_str().unwrap()).unwrap(),
        "s" => v["s"].clone(),
        "a" => match &v["a"] {
            Value::Array(a) => a.iter().map(dec).collect(),
            _ => json!([]),
        },
        // TLC writes an empty function as an empty array
        _ => match &v["o"] {
            Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), dec(v))).collect()),
            _ => json!({}),
        },
    }
}

fn ascii(v: &Value) -> String {
    let s = serde_json::to_string(v).unwrap();
    if s.is_ascii() {
        return s;
    }
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        if c.is_ascii() {
            out.push(c)
        } else {
            let mut buf = [0u16; 2];
            for u in c.encode_utf16(&mut buf) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        }
    }
    out
}

fn context(c: &Value) -> jst::Context {
    let b = |k: &str| c[k].as_bool().unwrap_or(false);
    jst::Context {
        resolve_method: match c["r"].as_str().unwrap_or("cast") {
            "cast" => jst::ResolveMethod::Cast,
            "drop" => jst::ResolveMethod::Drop,
            "panic" => jst::ResolveMethod::Panic,
            x => unreachable!("{}", x),
        },
        normalize_case: b("c"),
        force_nullable: b("n"),
        tuple_struct: b("u"),
        allow_maps_without_value: b("w"),
        json_object_path_regex: c["x"].as_array().and_then(|a| a.first()).and_then(|x| x.as_str()).map(|s| s.to_string()),
        ..jst::Context::default()
    }
}

fn seen(c: &jst::Context) -> Value {
    json!({
        "r": match c.resolve_method {
            jst::ResolveMethod::Cast => "cast",
            jst::ResolveMethod::Drop => "drop",
            jst::ResolveMethod::Panic => "panic",
        },
        "c": c.normalize_case, "n": c.force_nullable, "u": c.tuple_struct, "w": c.allow_maps_without_value,
        "x": c.json_object_path_regex.iter().map(|x| bmp(x)).collect::<Vec<_>>(),
    })
}

/// Options given as data: as a text and as a value. What was read is also used.
fn options(args: &[String]) {
    let mut w = BufWriter::new(File::create(&args[1]).unwrap());
    let plain = |v: &Value, k: &str| match v.get("tagged") {
        Some(t) => dec(t),
        None => v[k].clone(),
    };
    for line in BufReader::new(File::open(&args[0]).unwrap()).lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let es: Vec<(String, Value)> = match &case["es"] {
            Value::Array(a) => a.iter().map(|e| (e["name"].as_str().unwrap().to_string(), plain(e, "v"))).collect(),
            _ => vec![],
        };
        let texts: Vec<String> = es.iter().map(|(_, v)| v.to_string()).collect();
        let raw = match case["form"].as_str().unwrap() {
            "map" => {
                let items: Vec<String> = es.iter().zip(&texts).map(|((k, _), t)| format!("{}:{}", json!(k), t)).collect();
                format!("{{{}}}", items.join(","))
            }
            "list" => format!("[{}]", texts.join(",")),
            _ => texts[0].clone(),
        };
        let whole: Value = serde_json::from_str(&raw).unwrap();
        let text: Vec<jst::Context> = catch_unwind(|| serde_json::from_str(&raw)).ok().into_iter().flatten().collect();
        let value: Vec<jst::Context> = catch_unwind(|| serde_json::from_value(whole)).ok().into_iter().flatten().collect();
        let schema = plain(&case, "schema");
        let out = match text.first() {
            Some(ctx) => convert(&schema, case["t"].as_str().unwrap(), ctx.clone(), usize::MAX, &mut Vec::new()),
            None => json!({"r":"fail","m":""}),
        };
        let o = json!({"id":case["id"],"form":case["form"],"t":case["t"],"schema":enc(&schema),"out":out,
            "es":es.iter().map(|(k, v)| json!({"name":bmp(k),"v":enc(v)})).collect::<Vec<_>>(),
            "text":text.iter().map(seen).collect::<Vec<_>>(),"value":value.iter().map(seen).collect::<Vec<_>>(),
            "base":seen(&jst::Context { resolve_method: jst::ResolveMethod::default(), ..jst::Context::default() })});
        writeln!(w, "{}", ascii(&o)).unwrap();
    }
}

fn call(schema: &Value, c: &Value, d: usize, more: &mut Vec<Value>) -> Value {
    convert(schema, c["t"].as_str().unwrap(), context(c), d, more)
}

fn convert(schema: &Value, t: &str, ctx: jst::Context, d: usize, more: &mut Vec<Value>) -> Value {
    let res = catch_unwind(AssertUnwindSafe(|| match t {
        "avro" => jst::convert_avro(schema, ctx),
        _ => jst::convert_bigquery(schema, ctx),
    }));
    match res {
        Ok(v) => json!({"r":"ok","v":cut(&v, d, more)}),
        Err(_) => {
            let m: String = LAST.with(|l| l.borrow().chars().take(200).collect());
            json!({"r":"fail","m":bmp(&m)})
        }
    }
}

fn observe(case: &Value, d: usize) -> Value {
    let mut o = case.clone();
    let mut more = Vec::new();
    for part in o["parts"].as_array_mut().unwrap() {
        let schema = match part.get("tagged") {
            Some(t) => dec(t),
            None => part["schema"].clone(),
        };
        part.as_object_mut().unwrap().remove("tagged");
        for c in part["calls"].as_array_mut().unwrap() {
            let out = call(&schema, c, d, &mut more);
            c["out"] = out;
        }
        part["schema"] = cut(&schema, d, &mut more);
    }
    if !more.is_empty() {
        o["more"] = Value::Array(more);
    }
    o
}

fn exec(args: &[String]) {
    let opt = |name: &str, default: usize| -> usize {
        args.iter().position(|a| a == name).map_or(default, |i| args[i + 1].parse().unwrap())
    };
    let start = opt("--start", 0);
    let d = if args.iter().any(|a| a == "--whole") { usize::MAX } else { CUT };
    let input = BufReader::new(File::open(&args[0]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[1]).unwrap();
    for line in input.lines().skip(start) {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut text = ascii(&observe(&case, d));
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
    }
}

/// Every thread makes every call, starting at a different case and in its own
/// order; what each call returned is written with the order it returned in.
fn storm(args: &[String]) {
    let threads: usize = args[2].parse().unwrap();
    let cases: Vec<Value> = BufReader::new(File::open(&args[0]).unwrap())
        .lines()
        .map(|l| {
            let mut case: Value = serde_json::from_str(&l.unwrap()).unwrap();
            let part = &mut case["parts"][0];
            if let Some(t) = part.get("tagged") {
                part["schema"] = dec(t);
            }
            case
        })
        .collect();
    let cases = std::sync::Arc::new(cases);
    let clock = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut hs = vec![];
    for t in 0..threads {
        let cases = cases.clone();
        let clock = clock.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let n = cases.len();
                    let mut log = vec![];
                    for k in 0..n {
                        let i = if t % 2 == 0 { (k + t * n / threads) % n } else { (2 * n - 1 - k + t * n / threads) % n };
                        let part = &cases[i]["parts"][0];
                        for (j, c) in part["calls"].as_array().unwrap().iter().enumerate() {
                            let b = clock.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let mut out = call(&part["schema"], c, usize::MAX, &mut Vec::new());
                            if let Some(m) = out.as_object_mut() { m.remove("m"); }
                            let e = clock.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            log.push(json!({"th":t,"case":i+1,"call":j+1,"b":b,"e":e,"out":out}));
                        }
                    }
                    log
                })
                .unwrap(),
        );
    }
    let mut all: Vec<Value> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    all.sort_by_key(|v| v["e"].as_u64());
    let mut w = BufWriter::new(File::create(&args[1]).unwrap());
    for v in all {
        writeln!(w, "{}", ascii(&v)).unwrap();
    }
}

/// The bytes of a text of a case, and the text as the model sees it.
fn text(t: &Value) -> (Vec<u8>, Value) {
    if t["k"] == "bad" {
        if let Some(h) = t["hex"].as_str() {
            let bytes = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            return (bytes, json!({"k":"bad"}));
        }
        return (t["raw"].as_str().unwrap().as_bytes().to_vec(), json!({"k":"bad"}));
    }
    let v = match t.get("tagged") {
        Some(t) => dec(t),
        None => t["value"].clone(),
    };
    let raw = match t.get("raw") {
        Some(r) => r.as_str().unwrap().to_string(),
        None => serde_json::to_string(&v).unwrap(),
    };
    (raw.into_bytes(), json!({"k":"json","v":enc(&v)}))
}

/// Runs the command: cli CASES OBS BIN DIR THREADS. Each thread has a directory
/// of its own below DIR, with FILE and DIR in it; FILE has some other names
/// as well, and there is a file called - that is not to be read.
const NAMES: [&str; 18] = [
    "FILE", "DIR/FILE", "FILE.json", "FILE.avsc", "FILE.yaml", "FILE.txt", "my file", "-FILE", "--FILE", "avro", "bigquery", "stdin", "@FILE", "~",
    "*", "$HOME", "file:FILE", ".json",
];

fn cli(args: &[String]) {
    use std::process::{Command, Stdio};
    let cases: Vec<Value> = BufReader::new(File::open(&args[0]).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let (bin, dir) = (args[2].clone(), args[3].clone());
    let threads: usize = args[4].parse().unwrap();
    let cases = std::sync::Arc::new(cases);
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut hs = vec![];
    for t in 0..threads {
        let (cases, next, bin) = (cases.clone(), next.clone(), bin.clone());
        let here = std::path::Path::new(&dir).join(format!("t{}", t));
        hs.push(std::thread::spawn(move || {
            std::fs::create_dir_all(here.join("DIR")).unwrap();
            std::fs::write(here.join("-"), "{\"type\":\"boolean\"}").unwrap();
            let mut log = vec![];
            loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= cases.len() {
                    return log;
                }
                let case = &cases[i];
                let (stdin, stdin_seen) = text(&case["stdin"]);
                let (file, file_seen) = text(&case["file"]);
                let asked: Vec<&str> = case["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
                for n in NAMES.iter().filter(|n| **n == "FILE" || asked.contains(n)) {
                    std::fs::write(here.join(n), &file).unwrap();
                }
                let mut cmd = Command::new(&bin);
                cmd.current_dir(&here)
                    .env_clear()
                    .args(case["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()))
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::piped());
                if let Some(e) = case["env"].as_object() {
                    for (k, v) in e {
                        cmd.env(k, v.as_str().unwrap());
                    }
                }
                let mut child = cmd.spawn().unwrap();
                let mut pipe = child.stdin.take().unwrap();
                // a run that reads its file leaves this one alone
                let feeder = std::thread::spawn(move || {
                    let _ = pipe.write_all(&stdin);
                });
                let drain = |mut r: Box<dyn std::io::Read + Send>| {
                    std::thread::spawn(move || {
                        let mut v = vec![];
                        let _ = r.read_to_end(&mut v);
                        v
                    })
                };
                let (o, e) = (drain(Box::new(child.stdout.take().unwrap())), drain(Box::new(child.stderr.take().unwrap())));
                let begun = std::time::Instant::now();
                let code = loop {
                    match child.try_wait().unwrap() {
                        Some(status) => break status.code().unwrap_or(255),
                        None if begun.elapsed().as_secs() > 20 => {
                            let _ = child.kill();
                            let _ = child.wait();
                            break 254;
                        }
                        None => std::thread::sleep(std::time::Duration::from_micros(300)),
                    }
                };
                feeder.join().unwrap();
                for n in NAMES.iter().filter(|n| **n != "FILE" && asked.contains(n)) {
                    std::fs::remove_file(here.join(n)).unwrap();
                }
                let (out, _) = (o.join().unwrap(), e.join().unwrap());
                let said = String::from_utf8_lossy(&out).to_string();
                let value: Vec<Value> = serde_json::from_str::<Value>(&said).iter().map(enc).collect();
                log.push((i, json!({"id":case["id"],"args":case["args"],"stdin":stdin_seen,"file":file_seen,
                    "code":code,"text":bmp(&said),"value":value})));
            }
        }));
    }
    let mut all: Vec<(usize, Value)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    all.sort_by_key(|x| x.0);
    let mut w = BufWriter::new(File::create(&args[1]).unwrap());
    for (_, v) in all {
        writeln!(w, "{}", ascii(&v)).unwrap();
    }
}

fn words(args: &[String]) {
    let mut w = BufWriter::new(File::create(&args[1]).unwrap());
    for line in BufReader::new(File::open(&args[0]).unwrap()).lines() {
        let s: String = serde_json::from_str(&line.unwrap()).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| jst::casing::to_snake_case(&s)));
        let v = match r {
            Ok(x) => json!({"s":bmp(&s),"ok":true,"r":bmp(&x)}),
            Err(_) => json!({"s":bmp(&s),"ok":false,"r":""}),
        };
        writeln!(w, "{}", ascii(&v)).unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        LAST.with(|l| *l.borrow_mut() = m);
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match args[0].as_str() {
            "exec" => exec(&args[1..]),
            "storm" => storm(&args[1..]),
            "cli" => cli(&args[1..]),
            "options" => options(&args[1..]),
            "words" => words(&args[1..]),
            "enc" => {
                for line in std::io::stdin().lock().lines() {
                    println!("{}", ascii(&enc(&serde_json::from_str(&line.unwrap()).unwrap())));
                }
            }
            x => panic!("unknown command {}", x),
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
