//! The process around a check: a worker does the exploring, its parent watches it for crashes and
//! hangs, writes the evidence and gives the verdict.

use crate::ctx::*;
use std::fmt::Write as _;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub type CheckFn = fn(&Ctx);
pub struct Check {
    pub id: &'static str,
    pub run: CheckFn,
    pub assumptions: &'static [&'static str],
}

/// The library's hash maps get their seeds from here: always the same, so that every run of a case
/// iterates over them alike.
///
/// # Safety
/// `buf` must be valid for `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(167).wrapping_add(13);
    }
    len as isize
}

/// Writes every message the library logs to nowhere: what a message shows is computed only when
/// somebody listens.
struct Listener;
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, record: &log::Record<'_>) {
        let _ = Nowhere.write_fmt(*record.args());
    }
    fn flush(&self) {}
}
fn listen() {
    let _ = log::set_logger(&Listener);
    log::set_max_level(log::LevelFilter::Trace);
}

const HANG: Duration = Duration::from_secs(100);

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            '\r' => r.push_str("\\r"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn budget(tier: Tier) -> Duration {
    Duration::from_secs(match tier {
        Tier::Quick => 150,
        Tier::Thorough => 700,
    })
}

fn dir() -> std::path::PathBuf {
    std::env::current_dir().unwrap()
}

pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let find = |id: &str| checks.iter().find(|c| c.id == id);
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let c = find(&args[2]).unwrap();
            worker(c, tier, &args[3], &args[4]);
        }
        Some("check") => {
            let Some(c) = args.get(2).and_then(|i| find(i)) else {
                eprintln!("no such check");
                std::process::exit(2)
            };
            parent(c, tier)
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| {
                eprintln!("{}: {}", args[2], e);
                std::process::exit(2)
            });
            let field = |k: &str| {
                text.lines()
                    .find_map(|l| l.strip_prefix(k))
                    .unwrap_or_default()
                    .to_string()
            };
            let tier = if field("tier=") == "thorough" {
                Tier::Thorough
            } else {
                Tier::Quick
            };
            let c = find(&field("property=")).unwrap_or_else(|| {
                eprintln!("no such check");
                std::process::exit(2)
            });
            install_panic_hook();
            listen();
            let slots = Slots::open(&format!("/tmp/mc-replay-{}", std::process::id())).unwrap();
            let key = field("case=");
            let ctx = Ctx::new(c.id, tier, slots, budget(Tier::Thorough), Some(unline(&key)));
            (c.run)(&ctx);
            let _ = std::fs::remove_file(format!("/tmp/mc-replay-{}", std::process::id()));
            let v = ctx.violations.lock().unwrap();
            for x in v.iter() {
                println!("{}\n  {}", x.key, x.message);
            }
            let hit = v.iter().any(|x| line(&x.key) == key);
            println!("{}", if hit { "REPRODUCED" } else { "not reproduced" });
            std::process::exit(if hit { 1 } else { 0 })
        }
        Some("list") => {
            for c in checks {
                println!("{}", c.id);
            }
            std::process::exit(0)
        }
        _ => {
            eprintln!("usage: mc check <property> | replay <file> | list");
            std::process::exit(2)
        }
    }
}

/// One line of text: control characters and backslashes escaped.
pub fn line(s: &str) -> String {
    let e = esc(s);
    e[1..e.len() - 1].replace("\\\"", "\"")
}
fn unline(s: &str) -> String {
    let mut r = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c != '\\' {
            r.push(c);
            continue;
        }
        match cs.next() {
            Some('n') => r.push('\n'),
            Some('t') => r.push('\t'),
            Some('r') => r.push('\r'),
            Some('u') => {
                let h: String = (&mut cs).take(4).collect();
                r.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(c) => r.push(c),
            None => (),
        }
    }
    r
}

fn worker(c: &Check, tier: Tier, slots: &str, result: &str) -> ! {
    install_panic_hook();
    listen();
    limit_memory(20 << 30);
    let ctx = Ctx::new(c.id, tier, Slots::open(slots).unwrap(), budget(tier), None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)(&ctx)));
    let mut out = String::new();
    let _ = writeln!(out, "states={}", ctx.states.load(Relaxed));
    let _ = writeln!(out, "transitions={}", ctx.transitions.load(Relaxed));
    let _ = writeln!(out, "validated={}", ctx.validated.load(Relaxed));
    let _ = writeln!(out, "capped={}", ctx.capped());
    for (k, v) in ctx.extra.lock().unwrap().iter() {
        let _ = writeln!(out, "extra={}={}", k, v);
    }
    for n in ctx.all_notes().iter() {
        let _ = writeln!(out, "note={}", line(n));
    }
    for n in ctx.samples.lock().unwrap().iter() {
        let _ = writeln!(out, "sample={}", line(n));
    }
    let engine = ctx.engine_error.lock().unwrap().clone();
    if r.is_err() || engine.is_some() {
        let _ = writeln!(
            out,
            "engine={}",
            line(&engine.unwrap_or_else(|| "panic in the engine".into()))
        );
    }
    for v in ctx.violations.lock().unwrap().iter() {
        let _ = writeln!(out, "violation={}\u{1}{}", line(&v.key), line(&v.message));
    }
    out.push_str("end\n");
    std::fs::write(result, out).unwrap();
    // do not run destructors of what the exploration left behind
    std::process::exit(0)
}

struct Known {
    property: String,
    case: String,
    what: String,
}

/// Lines "known: property=<id> case=<case> :: <what fails>".
fn known() -> Vec<Known> {
    let text = std::fs::read_to_string(dir().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (property, rest) = l.split_once(" case=")?;
            let (case, what) = rest.split_once(" :: ")?;
            Some(Known {
                property: property.to_string(),
                case: case.to_string(),
                what: what.to_string(),
            })
        })
        .collect()
}

fn parent(c: &Check, tier: Tier) -> ! {
    let start = Instant::now();
    let run = dir().join("run");
    std::fs::create_dir_all(&run).unwrap();
    std::fs::create_dir_all(dir().join("evidence")).unwrap();
    let slots = run.join(format!("{}.slots", c.id));
    let result = run.join(format!("{}.result", c.id));
    let _ = std::fs::remove_file(&slots);
    let _ = std::fs::remove_file(&result);
    let watch = Slots::open(slots.to_str().unwrap()).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            c.id,
            slots.to_str().unwrap(),
            result.to_str().unwrap(),
        ])
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let mut err_pipe = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = Vec::new();
        let mut buf = [0u8; 65536];
        while let Ok(n) = err_pipe.read(&mut buf) {
            if n == 0 {
                break;
            }
            if s.len() < 1 << 20 {
                s.extend_from_slice(&buf[..n]);
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut last: Vec<(u64, Instant)> = (0..=THREADS)
        .map(|t| (watch.counter(t).0, Instant::now()))
        .collect();
    let mut hung: Option<usize> = None;
    let status = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        std::thread::sleep(Duration::from_millis(50));
        for (t, l) in last.iter_mut().enumerate() {
            let (n, active) = watch.counter(t);
            if n != l.0 || !active {
                *l = (n, Instant::now());
            } else if l.1.elapsed() > HANG {
                hung = Some(t);
            }
        }
        if hung.is_some() {
            let _ = child.kill();
            break child.wait().unwrap();
        }
    };
    let stderr = reader.join().unwrap_or_default();
    let text = std::fs::read_to_string(&result).unwrap_or_default();
    let finished = text.ends_with("end\n");
    let get = |k: &str| -> Vec<String> {
        text.lines()
            .filter_map(|l| l.strip_prefix(k))
            .map(|s| s.to_string())
            .collect()
    };
    let num = |k: &str| -> u64 {
        get(k)
            .first()
            .and_then(|s| s.parse().ok())
            .unwrap_or_default()
    };
    let mut violations: Vec<(String, String)> = get("violation=")
        .into_iter()
        .map(|l| {
            let (a, b) = l.split_once('\u{1}').unwrap_or((&l, ""));
            (a.to_string(), b.to_string())
        })
        .collect();
    let mut engine: Option<String> = get("engine=").first().cloned();
    if let Some(t) = hung {
        let (a, b) = watch.text(t);
        violations.push((
            line(&format!("{}{}", a, b)),
            format!("no progress for {} s: endless loop", HANG.as_secs()),
        ));
    } else if !finished {
        // crashed: which thread?
        let thread = stderr
            .split("thread 'w")
            .nth(1)
            .and_then(|s| s.split('\'').next())
            .and_then(|s| s.parse::<usize>().ok());
        match thread {
            Some(t) if t <= THREADS => {
                let (a, b) = watch.text(t);
                violations.push((
                    line(&format!("{}{}", a, b)),
                    format!("the process died: {} ({:?})", line(stderr.trim()), status),
                ));
            }
            _ => {
                engine = Some(format!(
                    "worker died without a result: {:?} {}",
                    status,
                    line(stderr.trim())
                ))
            }
        }
    }
    if let Some(e) = &engine {
        if violations.is_empty() {
            println!("engine error: {}", e);
            eprintln!("{}", stderr);
            std::process::exit(2);
        }
    }
    let known = known();
    let mut seen_known: Vec<&Known> = vec![];
    let mut fresh: Vec<(String, String)> = vec![];
    for v in violations {
        match known.iter().find(|k| k.property == c.id && k.case == v.0) {
            Some(k) => seen_known.push(k),
            None => fresh.push(v),
        }
    }
    let capped = get("capped=").first().map(|s| s == "true").unwrap_or(true);

    // evidence
    let mut ev = String::new();
    let _ = writeln!(ev, "{{");
    let _ = writeln!(ev, "  \"property\": {},", esc(c.id));
    let _ = writeln!(
        ev,
        "  \"tier\": \"{}\",",
        if tier == Tier::Quick { "quick" } else { "thorough" }
    );
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let _ = writeln!(ev, "  \"seed\": {},", seed);
    let _ = writeln!(ev, "  \"level\": \"model_checking\",");
    let _ = writeln!(ev, "  \"coverage\": {{");
    let _ = writeln!(ev, "    \"states\": {},", num("states="));
    let _ = writeln!(ev, "    \"transitions\": {},", num("transitions="));
    let _ = writeln!(
        ev,
        "    \"traces_validated_against_impl\": {},",
        num("validated=")
    );
    for e in get("extra=") {
        if let Some((k, v)) = e.rsplit_once('=') {
            let _ = writeln!(ev, "    {}: {},", esc(k), v);
        }
    }
    let list = |v: Vec<String>| {
        v.iter()
            .map(|s| format!("      {}", esc(s)))
            .collect::<Vec<_>>()
            .join(",\n")
    };
    let _ = writeln!(ev, "    \"explored\": [\n{}\n    ],", list(get("note=")));
    let mut samples = get("sample=");
    if samples.is_empty() {
        let (a, b) = watch.text(0);
        samples.push(format!("{}{}", a, b));
    }
    let _ = writeln!(ev, "    \"samples\": [\n{}\n    ],", list(samples));
    let _ = writeln!(ev, "    \"exhaustive\": {}", finished && !capped);
    let _ = writeln!(ev, "  }},");
    let _ = writeln!(
        ev,
        "  \"assumptions\": [\n{}\n  ],",
        list(c.assumptions.iter().map(|s| s.to_string()).collect())
    );
    let _ = writeln!(ev, "  \"wall_s\": {:.2},", start.elapsed().as_secs_f64());
    let _ = writeln!(ev, "  \"violations\": {}", fresh.len());
    let _ = writeln!(ev, "}}");
    std::fs::write(dir().join("evidence").join(format!("{}.json", c.id)), ev).unwrap();
    let _ = std::fs::remove_file(&slots);
    let _ = std::fs::remove_file(&result);

    for k in &seen_known {
        println!("KNOWN-FINDING: property={} {}", c.id, k.what);
    }
    println!(
        "{}: {} states, {} transitions, {} histories run on the library, {:.1} s{}",
        c.id,
        num("states="),
        num("transitions="),
        num("validated="),
        start.elapsed().as_secs_f64(),
        if capped { " (capped)" } else { "" }
    );
    for n in get("note=") {
        println!("  {}", n);
    }
    if fresh.is_empty() {
        std::process::exit(0);
    }
    for (i, (case, message)) in fresh.iter().enumerate() {
        let name = format!("run/{}-{}.replay", c.id, i);
        let body = format!(
            "property={}\ntier={}\ncase={}\nmessage={}\nreplay with: ./check.sh replay {}\n",
            c.id,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            case,
            message,
            name
        );
        let _ = std::fs::write(dir().join(&name), body);
        println!("  case {}\n    {}", case, message);
        println!("VIOLATION property={} replay=/verif/{}", c.id, name);
    }
    std::process::exit(1)
}
