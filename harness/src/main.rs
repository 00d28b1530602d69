use fv::engine::{self, hash_bytes, mix, run_case, Ctx, Src};
use fv::props;
use serde_json::{json, Value as J};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::Command;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map_or(default, |s| s.parse().expect("number"))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    // ASAN frames are several times larger.
    let stack = if cfg!(feature = "bigstack") { 512 << 20 } else { 64 << 20 };
    let code = std::thread::Builder::new().stack_size(stack).spawn(move || real_main(&args)).unwrap().join().unwrap_or(101);
    std::process::exit(code);
}

fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed, hash_bytes(prop.as_bytes())), i)
}

fn real_main(args: &[String]) -> i32 {
    match args.get(1).map(String::as_str) {
        Some("list") => {
            let v: Vec<J> = props::ALL
                .iter()
                .chain(props::GIANT)
                .map(|p| json!({"id": p.id, "quick": p.quick, "thorough": p.thorough, "rule": p.rule, "configs": p.configs}))
                .collect();
            println!("{}", J::from(v));
            0
        }
        Some("run") => cmd_run(args),
        #[cfg(feature = "cov")]
        Some("fuzz") => cmd_fuzz(args),
        Some("exec") => cmd_exec(args),
        Some("shrink") => cmd_shrink(args),
        Some("probe") => fv::props::probe(&args[2]),
        _ => {
            eprintln!("usage: fv list|run|exec|shrink|probe");
            2
        }
    }
}

fn prop(args: &[String]) -> &'static props::Prop {
    let id = arg(args, "--prop").expect("--prop");
    props::ALL.iter().chain(props::GIANT).find(|p| p.id == id).expect("unknown property")
}

fn cmd_run(args: &[String]) -> i32 {
    let p = prop(args);
    let seed = num(args, "--seed", 1);
    let shard = num(args, "--shard", 0);
    let shards = num(args, "--shards", 1);
    let cases = num(args, "--cases", 100);
    let out = arg(args, "--out").unwrap_or("/dev/stdout".into());
    let hb = arg(args, "--hb").map(|f| std::fs::File::create(f).expect("hb"));
    let mut cx = Ctx::default();
    let mut samples: Vec<String> = Vec::new();
    let mut evaluations = 0u64;
    let mut fail = J::Null;
    let mut i = shard;
    while i < cases {
        if let Some(hb) = &hb {
            let _ = hb.write_at(&i.to_le_bytes(), 0);
        }
        cx.verbose = samples.len() < 3 && evaluations < 400;
        let mut src = Src::random(case_seed(seed, p.id, i));
        let r = run_case(p.check, &mut src, &mut cx);
        evaluations += 1;
        if cx.end_case() && cx.verbose && !cx.notes.is_empty() && (samples.is_empty() || evaluations % 7 == 0) {
            samples.push(format!("case {i}: {}", cx.notes.join("; ")));
        }
        if let Err(msg) = r {
            fail = json!({"case": i, "message": msg, "choices": src.taken});
            break;
        }
        i += shards;
    }
    if let Some(hb) = &hb {
        let _ = hb.write_at(&u64::MAX.to_le_bytes(), 0);
    }
    let nt: Vec<u64> = cx.nontrivial.iter().copied().collect();
    let j = json!({"evaluations": evaluations, "sub": cx.sub, "nontrivial": cx.nontrivial_total, "distinct": nt,
        "classes": cx.classes, "samples": samples, "fail": fail});
    std::fs::write(out, j.to_string()).expect("out");
    i32::from(!fail.is_null())
}

/// Coverage-guided: like `run`, but cases are edits of earlier cases. The candidate being run is kept
/// in a file, so that a crash can be run again.
#[cfg(feature = "cov")]
fn cmd_fuzz(args: &[String]) -> i32 {
    use fv::fuzz::Fuzz;
    let p = prop(args);
    let shard = num(args, "--shard", 0);
    let cases = num(args, "--cases", 100);
    let secs = num(args, "--secs", 10);
    let out = arg(args, "--out").unwrap_or("/dev/stdout".into());
    let hb = arg(args, "--hb").map(|f| std::fs::File::create(f).expect("hb"));
    let cand = arg(args, "--cand").map(|f| std::fs::File::create(f).expect("cand"));
    let mut fz = Fuzz::new(Fuzz::seed_of(num(args, "--seed", 1), hash_bytes(p.id.as_bytes()), shard));
    let mut cx = Ctx::default();
    let mut samples: Vec<String> = Vec::new();
    let mut evaluations = 0u64;
    let mut fail = J::Null;
    let t0 = std::time::Instant::now();
    let mut bytes = Vec::new();
    for i in 0..cases {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let (choices, tail) = fz.next();
        if let Some(f) = &cand {
            bytes.clear();
            bytes.extend_from_slice(&(choices.len() as u64).to_le_bytes());
            bytes.extend_from_slice(&tail.to_le_bytes());
            for c in &choices {
                bytes.extend_from_slice(&c.to_le_bytes());
            }
            let _ = f.write_all_at(&bytes, 0);
        }
        if let Some(hb) = &hb {
            let _ = hb.write_at(&i.to_le_bytes(), 0);
        }
        let edited = !choices.is_empty();
        cx.verbose = samples.len() < 2 && edited && evaluations > 300;
        let mut src = Src::mutant(choices, tail);
        let t = std::time::Instant::now();
        fz.begin();
        let r = run_case(p.check, &mut src, &mut cx);
        fz.end(&src.taken, t.elapsed().as_micros() as u64);
        evaluations += 1;
        if cx.end_case() && cx.verbose && !cx.notes.is_empty() && evaluations % 7 == 0 {
            samples.push(format!("guided case {i}: {}", cx.notes.join("; ")));
        }
        if let Err(msg) = r {
            fail = json!({"case": i, "message": msg, "choices": src.taken});
            break;
        }
    }
    if let Some(hb) = &hb {
        let _ = hb.write_at(&u64::MAX.to_le_bytes(), 0);
    }
    *cx.classes.entry("(guided) kept for further edits").or_insert(0) += fz.kept() as u64;
    *cx.classes.entry("(guided) features reached").or_insert(0) += fz.features;
    let nt: Vec<u64> = cx.nontrivial.iter().copied().collect();
    let j = json!({"evaluations": evaluations, "sub": cx.sub, "nontrivial": cx.nontrivial_total, "distinct": nt,
        "classes": cx.classes, "samples": samples, "fail": fail});
    std::fs::write(out, j.to_string()).expect("out");
    i32::from(!fail.is_null())
}

fn read_choices(f: &str) -> Vec<u64> {
    let b = std::fs::read(f).expect("choices");
    if b.first() == Some(&b'{') || b.first() == Some(&b'[') {
        let j: J = serde_json::from_slice(&b).expect("json");
        let a = if j.is_array() { &j } else { &j["choices"] };
        a.as_array().expect("choices").iter().map(|x| x.as_u64().expect("u64")).collect()
    } else {
        b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
    }
}

fn cmd_exec(args: &[String]) -> i32 {
    let p = prop(args);
    let mut src = if let Some(f) = arg(args, "--choices") {
        Src::replay(read_choices(&f))
    } else if let Some(f) = arg(args, "--mutant") {
        let b = std::fs::read(f).expect("mutant");
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        Src::mutant(w[2..2 + w[0] as usize].to_vec(), w[1])
    } else {
        Src::random(case_seed(num(args, "--seed", 1), p.id, num(args, "--case", 0)))
    };
    if let Some(f) = arg(args, "--journal") {
        src = src.with_journal(std::fs::File::create(f).expect("journal"));
    }
    let mut cx = Ctx { verbose: true, ..Ctx::default() };
    cx.stream = arg(args, "--notes").map(|f| std::fs::File::create(f).expect("notes"));
    let r = run_case(p.check, &mut src, &mut cx);
    let quiet = args.iter().any(|a| a == "--quiet");
    if !quiet {
        for n in &cx.notes {
            println!("{n}");
        }
    }
    match r {
        Ok(()) => {
            if !quiet {
                println!("held");
            }
            0
        }
        Err(m) => {
            if !quiet {
                println!("FAILED: {m}");
            }
            if let Some(f) = arg(args, "--msg") {
                let _ = std::fs::write(f, &m);
            }
            1
        }
    }
}

fn cmd_shrink(args: &[String]) -> i32 {
    let p = prop(args);
    let start = read_choices(&arg(args, "--choices").expect("--choices"));
    let dir = arg(args, "--dir").expect("--dir");
    let budget = num(args, "--budget", 400) as usize;
    let secs = num(args, "--secs", 25);
    let t0 = std::time::Instant::now();
    let exe = std::env::current_exe().unwrap();
    let cand = format!("{dir}/cand.bin");
    let best = engine::shrink(start, budget, |c| {
        if t0.elapsed().as_secs() >= secs {
            return false;
        }
        let mut f = std::fs::File::create(&cand).unwrap();
        let mut b = Vec::with_capacity(c.len() * 8);
        for x in c {
            b.extend_from_slice(&x.to_le_bytes());
        }
        f.write_all(&b).unwrap();
        drop(f);
        let mut ch = Command::new(&exe)
            .args(["exec", "--quiet", "--prop", p.id, "--choices", &cand])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let t = std::time::Instant::now();
        loop {
            if let Some(st) = ch.try_wait().unwrap() {
                // A failure or a crash, but not an error of the harness itself.
                return !matches!(st.code(), Some(0 | 101));
            }
            if t.elapsed().as_secs() > 10 {
                let _ = ch.kill();
                let _ = ch.wait();
                return false;
            }
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
    });
    std::fs::write(format!("{dir}/shrunk.json"), J::from(best).to_string()).unwrap();
    0
}
