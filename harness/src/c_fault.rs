//! C15 and C25: concurrent standard output, failing writes. Both start child processes of the same binary.
use crate::{c_io::*, gen::*, mon::*, rep::*, rng::Rng, sim::*};
use corries::prelude::*;
use std::{
    collections::{BTreeMap, HashSet},
    fs,
    io::Read,
    os::unix::fs::{symlink, PermissionsExt},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    rc::Rc,
};

// ------------------------------------------------------------------------------------------------ child process
extern "C" {
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn raise(sig: i32) -> i32;
}
/// cvm child KIND HASH DIR THREADS FSIZE: runs the problem made from HASH and reports the verdict on stderr
pub fn child(a: &[String]) -> i32 {
    let h = u64::from_str_radix(&a[3], 16).unwrap();
    let (sp, _) = match a[2].as_str() {
        "c15" => (spec15(h, Path::new(&a[4])), 0),
        "c25" => (spec25(h, Path::new(&a[4]), true), 0),
        "c35" => (spec35(h, Path::new(&a[4])), 0),
        x => panic!("unknown child {x}"),
    };
    // the parent decides when to start
    let mut b = [0u8; 1];
    let _ = std::io::stdin().read(&mut b);
    if a[6] != "-" {
        let n: u64 = a[6].parse().unwrap();
        unsafe {
            // SIGXFSZ: ignored, or (C35) the end of the process, without a core dump
            signal(25, (a[2] != "c35") as usize);
            assert_eq!(setrlimit(4, &[0, 0]), 0);
            assert_eq!(setrlimit(1, &[n, n]), 0);
        }
    }
    let kill: Option<u64> = a.get(7).and_then(|k| k.parse().ok());
    let pool = rayon::ThreadPoolBuilder::new().num_threads(a[5].parse().unwrap()).stack_size(64 << 20).build().unwrap();
    let msg = pool.install(|| {
        match guarded(|| {
            let mut sim = make(&sp).map_err(|m| format!("INIT {m}"))?;
            if let Some(k) = kill {
                ctl(|c| {
                    c.on_step = Some(Rc::new(move |s| {
                        if s == k {
                            unsafe { raise(9) };
                        }
                    }))
                });
            }
            sim.run().map_err(|m| format!("RUN {m}"))
        }) {
            Ok(Ok(())) => "OK".to_string(),
            Ok(Err(m)) => format!("ERR {m}"),
            Err(p) => format!("PANIC {p}"),
        }
    });
    eprintln!("{msg}");
    0
}
fn spawn(kind: &str, h: u64, dir: &Path, threads: usize, fsize: Option<u64>, stdout: Stdio) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["child", kind, &format!("{h:x}"), dir.to_str().unwrap(), &threads.to_string()])
        .arg(fsize.map_or("-".to_string(), |x| x.to_string()))
        .stdin(Stdio::piped())
        .stdout(stdout)
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start a child process")
}
/// verdict of a child that has been started
fn verdict(mut c: Child) -> Result<String, String> {
    drop(c.stdin.take());
    let mut e = String::new();
    c.stderr.take().unwrap().read_to_string(&mut e).map_err(|x| x.to_string())?;
    let st = c.wait().map_err(|x| x.to_string())?;
    let l = e.lines().find(|l| l.starts_with("OK") || l.starts_with("ERR") || l.starts_with("PANIC"));
    match l {
        Some(l) if st.success() => Ok(l.to_string()),
        _ => Err(format!("the process died ({st}): {e:.500}")),
    }
}
fn quick_problem(r: &mut Rng, sizes: &[usize], steps: f64) -> Spec {
    let ph = phys(r);
    let s = *r.pick(sizes);
    let kind = *r.pick(&[Kind::Uniform, Kind::Smooth, Kind::Riemann]);
    let (prim, cs) = data(r, ph, s, kind, MILD, 1.0, 1.0);
    let mut sp = Spec { phys: ph, flux: Flux::Hll, s, rkf: rkf(r, false), xi: interval(r, s), gamma: gamma(r), cfl: r.uni(0.05, 0.4), prim, cs, ..Default::default() };
    set_duration(&mut sp, steps);
    sp
}

// ------------------------------------------------------------------------------------------------ C15
/// a problem with several outputs on stdout and, sometimes, in files
fn spec15(h: u64, dir: &Path) -> Spec {
    let r = &mut Rng::new(h);
    let mut sp = quick_problem(r, &[6, 11, 33, 104, 204, 404], 10.0);
    sp.n_out = r.range(0, 12);
    sp.banner = r.chance(0.3);
    if r.chance(0.2) {
        sp.iter_max = r.range(1, 8);
    }
    let n = r.range(2, 6);
    for k in 0..n {
        let mut o = out_any(r, sp.e(), dir.join(format!("o{k}")).to_str().unwrap(), "f");
        if k < 2 || r.chance(0.8) {
            o.stream_mode = StreamMode::Stdout;
            if r.chance(0.3) {
                o.folder_name = "".into();
                o.file_name = "".into();
            }
        }
        o.should_print_metadata = r.chance(0.2);
        if k > 0 && r.chance(0.15) {
            // the very same output twice
            o = sp.outputs[k - 1].clone();
            if o.stream_mode == StreamMode::File {
                o.file_name = format!("g{k}");
            }
        }
        sp.outputs.push(o);
    }
    sp
}
/// blocks of every output of a run: obtained from files of a run without concurrency
fn twin_blocks(sp: &Spec, dir: &Path) -> Result<(Vec<Vec<Vec<u8>>>, bool), String> {
    let mut tw = sp.clone();
    tw.banner = false;
    for (k, o) in tw.outputs.iter_mut().enumerate() {
        o.stream_mode = StreamMode::File;
        o.folder_name = dir.join(format!("twin{k}")).to_str().unwrap().into();
        o.file_name = "f".into();
        o.should_print_metadata = false;
    }
    let mut sim = make(&tw).map_err(|m| format!("the run into files fails: {m}"))?;
    let ok = sim.run().is_ok();
    let n = sim.output_counter();
    let mut all = vec![];
    for o in &tw.outputs {
        let mut v: Vec<Vec<u8>> = vec![];
        match o.string_conversion_mode {
            ToStringConversionMode::Vector => {
                for k in 0..n {
                    let f = out_path(o, sp.n_out, k);
                    v.push(fs::read(&f).map_err(|e| format!("{}: {e}", f.display()))?);
                }
            },
            ToStringConversionMode::Scalar => {
                let f = out_path(o, sp.n_out, 0);
                let b = fs::read(&f).map_err(|e| format!("{}: {e}", f.display()))?;
                let mut l: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                req!(l.len() == n + 1, "{} has {} lines after {n} outputs", f.display(), l.len());
                let head = l.remove(0);
                l[0] = [head, l[0].clone()].concat();
                v = l;
            },
        }
        all.push(v);
    }
    Ok((all, ok))
}
/// Explains `text` as an interleaving of whole blocks, each sequence in its order; returns the order of the outputs.
fn parse(text: &[u8], blocks: &[&Vec<Vec<u8>>]) -> Result<Vec<usize>, (usize, Vec<usize>)> {
    // depth first; the position follows from the counters
    let n = blocks.len();
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    let mut best = (0usize, vec![0; n]);
    let mut stack: Vec<(Vec<usize>, usize, Vec<usize>)> = vec![(vec![0; n], 0, vec![])];
    while let Some((c, pos, order)) = stack.pop() {
        if pos > best.0 {
            best = (pos, c.clone());
        }
        if pos == text.len() && (0..n).all(|k| c[k] == blocks[k].len()) {
            return Ok(order);
        }
        if !seen.insert(c.clone()) {
            continue;
        }
        for k in (0..n).rev() {
            if c[k] < blocks[k].len() && text[pos..].starts_with(&blocks[k][c[k]]) {
                let (mut d, mut o) = (c.clone(), order.clone());
                d[k] += 1;
                o.push(k);
                stack.push((d, pos + blocks[k][c[k]].len(), o));
            }
        }
    }
    Err(best)
}
pub fn c15(rep: &Rep) {
    rep.rule("child processes run simulations with two to six outputs, at least two of them on standard output, on rayon pools of 1 to 8 threads, into a pipe whose reader stalls at random so that writers block in the middle of blocks; everything received is parsed as an interleaving of complete blocks, which are known from an unthreaded run of the same problem into files. Non-trivial: more than one thread and at least four blocks; distinct orders of the outputs are counted.");
    let orders = std::sync::Mutex::new(HashSet::<Vec<usize>>::new());
    let next_to = std::sync::Mutex::new(BTreeMap::<usize, HashSet<Vec<usize>>>::new());
    rep.family("pipes", rep.n(1500, 40_000), if rep.thorough { 500.0 } else { 30.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let h = r.u64();
        let sp = spec15(h, &dir.0);
        let threads = *r.pick(&[1, 2, 2, 3, 4, 8, 8]);
        cx.desc = format!("threads={threads} {} banner={} iter_max={} outputs: {:?}", sp.head(), sp.banner, sp.iter_max, sp.outputs);
        let (blocks, ok) = twin_blocks(&sp, &dir.0)?;
        let mut c = spawn("c15", h, &dir.0, threads, None, Stdio::piped());
        let mut out = c.stdout.take().unwrap();
        let slow = r.chance(0.6);
        drop(c.stdin.take());
        let mut text = vec![];
        let mut buf = vec![0u8; if slow { 4096 } else { 65536 }];
        if slow && r.chance(0.5) {
            std::thread::sleep(std::time::Duration::from_millis(r.below(30) as u64));
        }
        loop {
            match out.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => text.extend_from_slice(&buf[..n]),
                Err(e) => return Err(format!("reading the pipe: {e}")),
            }
            if slow && r.chance(0.3) {
                std::thread::sleep(std::time::Duration::from_micros(r.below(2000) as u64));
            }
        }
        let v = verdict(c)?;
        req!(v.starts_with("OK") == ok && !v.starts_with("PANIC"), "the run on {threads} threads ends with {v:.300}, the one into files with ok={ok}");
        // banner and metadata come first
        let mut pos = 0;
        if sp.banner {
            // a block framed by two lines of stars
            let mut frames = 0;
            while frames < 2 && text[pos..].starts_with(b"#") {
                let e = text[pos..].iter().position(|c| *c == b'\n').ok_or("the banner is cut off")?;
                let l = String::from_utf8_lossy(&text[pos..pos + e]).to_string();
                frames += l.contains("*****") as usize;
                pos += e + 1;
            }
            let b = String::from_utf8_lossy(&text[..pos]).to_string();
            req!(pos > 0 && b.to_lowercase().contains("corries"), "there is no banner at the beginning: {:.200}", String::from_utf8_lossy(&text));
        }
        let so: Vec<usize> = (0..sp.outputs.len()).filter(|k| sp.outputs[*k].stream_mode == StreamMode::Stdout).collect();
        let metas = so.iter().filter(|k| sp.outputs[**k].should_print_metadata).count();
        let want = serde_json::to_value(&sp.config()).unwrap();
        for q in 0..metas {
            let mut it = serde_json::Deserializer::from_slice(&text[pos..]).into_iter::<serde_json::Value>();
            match it.next() {
                Some(Ok(v)) if v == want => pos += it.byte_offset(),
                Some(Ok(v)) => return Err(format!("metadata {q} on stdout does not reproduce the configuration: {v:.300}")),
                x => return Err(format!("metadata {q} on stdout is broken: {x:?}")),
            }
            while text.get(pos) == Some(&b'\n') {
                pos += 1;
            }
        }
        let bl: Vec<&Vec<Vec<u8>>> = so.iter().map(|k| &blocks[*k]).collect();
        let total: usize = bl.iter().map(|b| b.len()).sum();
        match parse(&text[pos..], &bl) {
            Ok(order) => {
                cx.count("blocks", total as u64);
                cx.count("bytes", text.len() as u64);
                cx.count(&format!("threads_{threads}"), 1);
                if !order.windows(so.len()).step_by(so.len()).all(|w| w.windows(2).all(|p| p[0] < p[1])) {
                    cx.count("runs_with_outputs_out_of_turn", 1);
                }
                for w in order.chunks(so.len()) {
                    next_to.lock().unwrap().entry(so.len()).or_default().insert(w.to_vec());
                }
                orders.lock().unwrap().insert(order);
            },
            Err((at, c)) => {
                let p = pos + at;
                let lo = p.saturating_sub(80);
                return Err(format!(
                    "after {at} of {} bytes (blocks so far {c:?} of {:?}) no complete block follows: ...{:?} | {:?}...",
                    text.len() - pos,
                    bl.iter().map(|b| b.len()).collect::<Vec<_>>(),
                    String::from_utf8_lossy(&text[lo..p]),
                    String::from_utf8_lossy(&text[p..(p + 160).min(text.len())])
                ));
            },
        }
        // files written next to stdout are the same as without
        for (k, o) in sp.outputs.iter().enumerate().filter(|(_, o)| o.stream_mode == StreamMode::File) {
            let all = blocks[k].concat();
            let got: Vec<u8> = match o.string_conversion_mode {
                ToStringConversionMode::Scalar => fs::read(out_path(o, sp.n_out, 0)).map_err(|e| format!("output {k}: {e}"))?,
                _ => {
                    let mut v = vec![];
                    for q in 0..blocks[k].len() {
                        v.extend(fs::read(out_path(o, sp.n_out, q)).map_err(|e| format!("output {k}, file {q}: {e}"))?);
                    }
                    v
                },
            };
            req!(got == all, "the files of output {k} differ from those of the unthreaded run");
            cx.count("file_outputs_compared", 1);
        }
        Ok(threads > 1 && total >= 4)
    });
    let n = orders.into_inner().unwrap().len() as u64;
    let t: u64 = next_to.into_inner().unwrap().values().map(|s| s.len() as u64).sum();
    rep.count("distinct_whole_run_orders", n);
    rep.count("distinct_orders_within_one_output_time", t);
}

// ------------------------------------------------------------------------------------------------ C25
fn spec25(h: u64, dir: &Path, with_stdout: bool) -> Spec {
    let r = &mut Rng::new(h);
    let mut sp = quick_problem(r, &[6, 7, 11, 33], 10.0);
    sp.n_out = *r.pick(&[1, 1, 2, 3, 5, 9, 10, 12]);
    // output 0: the clock
    let p = |s: &str| dir.join(s).to_str().unwrap().to_string();
    sp.outputs.push(file_out(&p("clock"), "f", FormattingMode::CSV, ToStringConversionMode::Scalar, SCALARS.to_vec()));
    sp.outputs[0].should_clear_out_folder = false;
    for k in 1..=r.range(1, 4) {
        let mut o = out_any(r, sp.e(), &p(&format!("o{k}")), "f");
        if k > 1 && r.chance(0.25) {
            o.folder_name = p("o1");
            o.file_name = format!("f{k}");
        }
        if with_stdout && r.chance(0.4) {
            o.stream_mode = StreamMode::Stdout;
        }
        o.should_clear_out_folder = false;
        sp.outputs.push(o);
    }
    if with_stdout {
        sp.banner = r.chance(0.2);
        let pos = sp.outputs.len();
        let q = r.below(pos);
        sp.outputs.swap(0, q);
    }
    sp
}
fn retarget(sp: &Spec, from: &Path, to: &Path) -> Spec {
    let mut t = sp.clone();
    for o in t.outputs.iter_mut() {
        o.folder_name = o.folder_name.replace(from.to_str().unwrap(), to.to_str().unwrap());
    }
    t
}
fn file(t: &Tree, p: &Path) -> Option<Vec<u8>> {
    match t.get(p) {
        Some(Node::File(b)) => Some(b.clone()),
        _ => None,
    }
}
/// Compares what a failing run left behind with the reference: everything before output number `kf` complete, number
/// `kf` complete, absent or (for the victim) cut off, and nothing later. `kf` = None: initialisation failed.
#[allow(clippy::too_many_arguments)]
fn leftovers(sp: &Spec, root: &Path, refroot: &Path, reft: &Tree, got: &Tree, kf: Option<usize>, victim: &dyn Fn(usize) -> bool, gone: &dyn Fn(usize) -> bool, cx: &mut Cx) -> Result<(), String> {
    let _ = refroot;
    let n = sp.n_out + 1;
    for (k, o) in sp.outputs.iter().enumerate().filter(|(_, o)| o.stream_mode == StreamMode::File) {
        if gone(k) {
            continue;
        }
        let rel = |p: PathBuf| p.strip_prefix(root).unwrap().to_path_buf();
        if o.should_print_metadata && !victim(k) {
            let p = rel(meta_path(o));
            match (file(reft, &p), file(got, &p)) {
                // the metadata names the folders, so that their lengths differ
                (Some(_), Some(b)) => req!(serde_json::from_slice::<serde_json::Value>(&b).is_ok_and(|v| v == serde_json::to_value(&sp.config()).unwrap()), "the metadata of output {k} is damaged"),
                (Some(_), None) => req!(kf.is_none(), "the metadata of output {k} is missing"),
                _ => {},
            }
        }
        match o.string_conversion_mode {
            ToStringConversionMode::Vector => {
                for q in 0..n {
                    let p = rel(out_path(o, sp.n_out, q));
                    let (want, g) = (file(reft, &p).ok_or("reference is incomplete")?, file(got, &p));
                    match kf {
                        Some(f) if q < f => {
                            req!(g.as_ref() == Some(&want), "output {k}: {} was complete before the failure of output number {f} and is now {}", p.display(), if g.is_some() { "different" } else { "missing" });
                            cx.count("completed_files_compared", 1);
                        },
                        Some(f) if q == f => {
                            if let Some(g) = g {
                                req!(g == want || (victim(k) && want.starts_with(&g)), "output {k}: {} of the failing output number is neither complete nor absent", p.display());
                            }
                        },
                        _ => req!(g.is_none() || victim(k), "output {k}: {} was written after the failure", p.display()),
                    }
                }
            },
            ToStringConversionMode::Scalar => {
                let p = rel(out_path(o, sp.n_out, 0));
                let want = file(reft, &p).ok_or("reference is incomplete")?;
                let g = file(got, &p).unwrap_or_default();
                // header + one row per output
                let ends: Vec<usize> = want.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1).collect();
                let (lo, hi) = match kf {
                    None => (0, 0),
                    Some(0) => (0, ends[1]),
                    Some(f) => (ends[f], ends[(f + 1).min(n)]),
                };
                req!(want.starts_with(&g), "output {k}: {} does not begin like the one of an undisturbed run", p.display());
                req!(g.len() >= lo && g.len() <= hi, "output {k}: {} has {} bytes instead of {lo} to {hi}", p.display(), g.len());
                req!(victim(k) || g.len() == lo || g.len() == hi, "output {k}: {} ends within a row although another output failed", p.display());
                cx.count("appended_files_compared", 1);
            },
        }
    }
    Ok(())
}
/// iteration counters of the rows of the clock output
fn clock(reft: &Tree) -> Result<Vec<usize>, String> {
    let b = file(reft, Path::new("clock/f.csv")).ok_or("no clock")?;
    String::from_utf8_lossy(&b).lines().skip(1).map(|l| l.split(',').nth(1).and_then(|x| x.parse().ok()).ok_or(format!("bad row {l}"))).collect()
}
pub fn c25(rep: &Rep) {
    rep.rule("faults: every kind of obstacle in the way of one file or folder of one output (occupied, read-only, missing, full device), present from the start or appearing before a chosen step of the run; limits: file size limits between 0 and beyond the largest file; stdout: full device, closed pipe, size limited file. A run must fail exactly when something could not be written, without panic, keep all files completed before, and report success only if every file equals that of an undisturbed run. Non-trivial: the fault was hit and files existed that had to survive, or the run succeeded next to it.");
    rep.family("faults", rep.n(12_000, 150_000), if rep.thorough { 300.0 } else { 22.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let (ra, rb) = (dir.0.join("ref"), dir.0.join("run"));
        let h = r.u64();
        let mut sp = spec25(h, &rb, false);
        let refsp = retarget(&sp, &rb, &ra);
        {
            let mut sim = make(&refsp).map_err(|m| format!("the undisturbed run fails: {m}"))?;
            sim.run().map_err(|m| format!("the undisturbed run fails: {m}"))?;
        }
        reset();
        let reft = tree(&ra);
        let iters = clock(&reft)?;
        req!(iters.len() == sp.n_out + 1, "{} outputs instead of {}", iters.len(), sp.n_out + 1);
        fs::create_dir_all(&rb).unwrap();
        let v = r.below(sp.outputs.len());
        let o = sp.outputs[v].clone();
        let folder = PathBuf::from(&o.folder_name);
        let shares: Vec<bool> = sp.outputs.iter().map(|x| x.folder_name == o.folder_name).collect();
        let scalar = o.string_conversion_mode == ToStringConversionMode::Scalar;
        let k = r.range(0, sp.n_out);
        let path = out_path(&o, sp.n_out, k);
        let kf0 = if scalar { 0 } else { k };
        let what = r.below(12);
        let mut kf: Option<usize> = None;
        // whether a whole folder is affected, and whether its contents were taken away by us
        let mut whole = false;
        let mut taken = false;
        let mut hook: Option<Box<dyn Fn()>> = None;
        let mut outside: Option<(PathBuf, Node)> = None;
        match what {
            0 => {
                // the folder is a file
                fs::write(&folder, b"in the way").unwrap();
                sp.outputs[v].should_clear_out_folder = r.chance(0.5);
                outside = Some((folder.strip_prefix(&rb).unwrap().to_path_buf(), Node::File(b"in the way".to_vec())));
                whole = true;
            },
            1 => {
                // a parent of the folder is a file
                fs::write(rb.join("blocked"), b"in the way").unwrap();
                sp.outputs[v].folder_name = rb.join("blocked/x").to_str().unwrap().into();
                outside = Some((PathBuf::from("blocked"), Node::File(b"in the way".to_vec())));
                whole = true;
                taken = true;
            },
            2 => {
                // the parent is read-only
                let p = rb.join("ro");
                fs::create_dir(&p).unwrap();
                fs::set_permissions(&p, fs::Permissions::from_mode(0o555)).unwrap();
                sp.outputs[v].folder_name = p.join("x").to_str().unwrap().into();
                whole = true;
                taken = true;
            },
            3 => {
                // the folder is read-only
                fs::create_dir(&folder).unwrap();
                fs::set_permissions(&folder, fs::Permissions::from_mode(0o555)).unwrap();
                whole = true;
                kf = if (0..sp.outputs.len()).any(|q| shares[q] && sp.outputs[q].should_print_metadata) { None } else { Some(0) };
            },
            4 => {
                // a read-only folder with contents that should be cleared
                fs::create_dir(&folder).unwrap();
                fs::write(folder.join("old"), b"old").unwrap();
                fs::set_permissions(&folder, fs::Permissions::from_mode(0o555)).unwrap();
                sp.outputs[v].should_clear_out_folder = true;
                whole = true;
                outside = Some((folder.join("old").strip_prefix(&rb).unwrap().to_path_buf(), Node::File(b"old".to_vec())));
            },
            5 => {
                // a directory instead of the file
                fs::create_dir_all(&path).unwrap();
                kf = Some(kf0);
            },
            6 => {
                fs::create_dir_all(&folder).unwrap();
                if symlink("/dev/full", &path).is_err() {
                    return Ok(false);
                }
                kf = Some(kf0);
            },
            7 => {
                // a dangling link into a folder that does not exist
                fs::create_dir_all(&folder).unwrap();
                symlink(rb.join("nowhere/file"), &path).unwrap();
                kf = Some(kf0);
            },
            8 => {
                // an existing file that may not be written
                fs::create_dir_all(&folder).unwrap();
                fs::write(&path, b"protected").unwrap();
                fs::set_permissions(&path, fs::Permissions::from_mode(0o444)).unwrap();
                kf = Some(kf0);
            },
            9 => {
                // the metadata file is in the way
                sp.outputs[v].should_print_metadata = true;
                let m = meta_path(&sp.outputs[v]);
                fs::create_dir_all(&folder).unwrap();
                match r.below(3) {
                    0 => fs::create_dir(&m).unwrap(),
                    1 => symlink("/dev/full", &m).unwrap(),
                    _ => symlink(rb.join("nowhere/file"), &m).unwrap(),
                }
            },
            _ => {
                // something happens before step j
                let total = *iters.last().unwrap();
                if total == 0 {
                    return Ok(false);
                }
                let j = r.below(total);
                let next = iters.iter().filter(|x| **x <= j).count();
                kf = Some(next);
                let (f2, p2) = (folder.clone(), out_path(&o, sp.n_out, next));
                let how = r.below(4);
                match (how, scalar) {
                    (0, _) => {
                        whole = true;
                        taken = true;
                        hook = Some(Box::new(move || fs::remove_dir_all(&f2).unwrap()));
                    },
                    (1, false) => {
                        whole = true;
                        hook = Some(Box::new(move || fs::set_permissions(&f2, fs::Permissions::from_mode(0o555)).unwrap()));
                        // appended files of the same folder remain writable: the victim is any vector output there
                    },
                    (1, true) => {
                        hook = Some(Box::new(move || fs::set_permissions(&p2, fs::Permissions::from_mode(0o444)).unwrap()));
                    },
                    (2, false) => hook = Some(Box::new(move || fs::create_dir(&p2).unwrap())),
                    (2, true) => {
                        taken = true;
                        hook = Some(Box::new(move || {
                            fs::remove_file(&p2).unwrap();
                            fs::create_dir(&p2).unwrap()
                        }));
                    },
                    (_, sc) => {
                        taken = sc;
                        hook = Some(Box::new(move || {
                            if sc {
                                fs::remove_file(&p2).unwrap();
                            }
                            symlink("/dev/full", &p2).unwrap()
                        }));
                    },
                }
                sp.n_out = refsp.n_out;
                cx.desc = format!("before step {j} (next output {next}), how {how}; ");
                if let Some(f) = hook.take() {
                    let cell = std::cell::RefCell::new(Some(f));
                    let hk: Rc<dyn Fn(u64)> = Rc::new(move |s: u64| {
                        if s == j as u64 {
                            if let Some(f) = cell.borrow_mut().take() {
                                f()
                            }
                        }
                    });
                    ctl(|c| c.on_step = Some(hk));
                }
            },
        }
        cx.desc += &format!("fault {what} at output {v}, number {k}: {} outputs: {:?}", sp.head(), sp.outputs);
        cx.count(&format!("fault_{what}"), 1);
        let hit_in_init = kf.is_none();
        let (stage, res) = match make(&sp) {
            Err(m) => ("init", Err(m)),
            Ok(mut sim) => ("run", sim.run()),
        };
        let m = match res {
            Ok(()) => return Err("success was reported although an output could not be written".to_string()),
            Err(m) => m,
        };
        req!(hit_in_init == (stage == "init"), "the failure came from {stage}: {m}");
        unlock(&rb);
        let got = tree(&rb);
        if let Some((p, n)) = outside {
            req!(got.get(&p) == Some(&n), "{} was damaged", p.display());
        }
        let victim = |q: usize| q == v || (whole && shares[q]);
        let gone = |q: usize| (taken && victim(q)) || (what < 5 && victim(q));
        // what we planted ourselves under the name of a file is not an output
        let mut got2 = got.clone();
        if (5..=8).contains(&what) {
            let p = path.strip_prefix(&rb).unwrap().to_path_buf();
            if what == 8 {
                req!(got.get(&p) == Some(&Node::File(b"protected".to_vec())), "a write-protected file was changed");
            }
            got2.remove(&p);
        }
        leftovers(&sp, &rb, &ra, &reft, &got2, kf, &victim, &gone, cx)?;
        Ok(true)
    });
    rep.family("limits", rep.n(1200, 20_000), if rep.thorough { 200.0 } else { 14.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let rb = dir.0.join("run");
        let ra = dir.0.join("ref");
        let h = r.u64();
        let sp = spec25(h, &rb, true);
        // the reference has everything in files
        let mut refsp = retarget(&sp, &rb, &ra);
        refsp.banner = false;
        for (k, o) in refsp.outputs.iter_mut().enumerate() {
            if o.stream_mode == StreamMode::Stdout {
                o.stream_mode = StreamMode::File;
                o.folder_name = ra.join(format!("stdout{k}")).to_str().unwrap().into();
                o.should_print_metadata = false;
            }
        }
        {
            let mut sim = make(&refsp).map_err(|m| format!("the undisturbed run fails: {m}"))?;
            sim.run().map_err(|m| format!("the undisturbed run fails: {m}"))?;
        }
        let reft = tree(&ra);
        // sizes at which each output number would have to stop
        let meta = serde_json::to_string_pretty(&sp.config()).unwrap().len();
        let mut sizes: Vec<(usize, Option<usize>, usize)> = vec![]; // (bytes needed, output number, output)
        for (k, o) in sp.outputs.iter().enumerate() {
            if o.stream_mode == StreamMode::Stdout {
                continue;
            }
            if o.should_print_metadata {
                sizes.push((meta, None, k));
            }
            let rel = |q| out_path(&refsp.outputs[k], sp.n_out, q).strip_prefix(&ra).unwrap().to_path_buf();
            match o.string_conversion_mode {
                ToStringConversionMode::Vector => {
                    for q in 0..=sp.n_out {
                        sizes.push((file(&reft, &rel(q)).ok_or("reference is incomplete")?.len(), Some(q), k));
                    }
                },
                _ => {
                    let b = file(&reft, &rel(0)).ok_or("reference is incomplete")?;
                    for (q, e) in b.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1).skip(1).enumerate() {
                        sizes.push((e, Some(q), k));
                    }
                },
            }
        }
        let biggest = sizes.iter().map(|x| x.0).max().unwrap();
        let some = *r.pick(&sizes);
        let lim = match r.below(8) {
            0 => 0,
            1 => r.below(40),
            2 => some.0,
            3 => some.0 - 1,
            4 => biggest,
            5 => biggest - 1,
            6 => biggest + r.below(100),
            _ => r.below(biggest + 1),
        };
        let kf = sizes.iter().filter(|x| x.0 > lim).map(|x| x.1).min();
        cx.desc = format!("limit {lim} bytes (largest file {biggest}), {} outputs: {:?}", sp.head(), sp.outputs);
        fs::create_dir_all(&rb).unwrap();
        let mut c = spawn("c25", h, &rb, *r.pick(&[1, 4]), Some(lim as u64), Stdio::piped());
        let mut out = c.stdout.take().unwrap();
        let t = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = out.read_to_end(&mut v);
            v
        });
        let v = verdict(c)?;
        let _ = t.join();
        req!(!v.starts_with("PANIC"), "{v:.500}");
        let got = tree(&rb);
        match kf {
            None => {
                req!(v.starts_with("OK"), "the run fails although everything fits: {v:.300}");
                leftovers(&sp, &rb, &ra, &reft, &got, Some(usize::MAX), &|_| false, &|k| sp.outputs[k].string_conversion_mode == ToStringConversionMode::Scalar, cx)?;
                for (k, o) in sp.outputs.iter().enumerate().filter(|(_, o)| o.stream_mode == StreamMode::File && o.string_conversion_mode == ToStringConversionMode::Scalar) {
                    let p = out_path(o, sp.n_out, 0).strip_prefix(&rb).unwrap().to_path_buf();
                    req!(file(&got, &p) == file(&reft, &p), "output {k} is not complete, but success was reported");
                }
                cx.count("everything_fits", 1);
            },
            Some(f) => {
                req!(v.starts_with("ERR"), "success was reported although files were cut off at {lim} bytes (output number {f:?})");
                req!(f.is_none() == v.starts_with("ERR INIT"), "output number {f:?} did not fit, but: {v:.300}");
                let vic: HashSet<usize> = sizes.iter().filter(|x| x.0 > lim && x.1 == f).map(|x| x.2).collect();
                leftovers(&sp, &rb, &ra, &reft, &got, f, &|k| vic.contains(&k), &|_| false, cx)?;
                cx.count(if f.is_none() { "cut_in_metadata" } else { "cut_in_output" }, 1);
            },
        }
        Ok(true)
    });
    rep.family("stdout", rep.n(1000, 15_000), if rep.thorough { 150.0 } else { 10.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let (ra, rb) = (dir.0.join("ref"), dir.0.join("run"));
        let h = r.u64();
        let sp = spec25(h, &rb, true);
        let mut refsp = retarget(&sp, &rb, &ra);
        refsp.banner = false;
        let mut need: Vec<(usize, Option<usize>)> = vec![]; // bytes on stdout in total when this is written
        for (k, o) in refsp.outputs.iter_mut().enumerate() {
            if o.stream_mode == StreamMode::Stdout {
                o.stream_mode = StreamMode::File;
                o.folder_name = ra.join(format!("stdout{k}")).to_str().unwrap().into();
                o.should_print_metadata = false;
            }
        }
        {
            let mut sim = make(&refsp).map_err(|m| format!("the undisturbed run fails: {m}"))?;
            sim.run().map_err(|m| format!("the undisturbed run fails: {m}"))?;
        }
        let reft = tree(&ra);
        let so: Vec<&OutputConfig> = sp.outputs.iter().filter(|o| o.stream_mode == StreamMode::Stdout).collect();
        let early = sp.banner || so.iter().any(|o| o.should_print_metadata);
        if early {
            need.push((1, None));
        } else if !so.is_empty() {
            need.push((1, Some(0)));
        }
        let kind = r.below(2);
        cx.desc = format!("{} banner={} {} outputs: {:?}", ["full device", "closed pipe"][kind], sp.banner, sp.head(), sp.outputs);
        fs::create_dir_all(&rb).unwrap();
        let io = match kind {
            0 => match fs::OpenOptions::new().write(true).open("/dev/full") {
                Ok(f) => Stdio::from(f),
                Err(_) => return Ok(false),
            },
            _ => {
                // A process that another thread is just starting may hold a copy of the reading end until it has
                // begun: only go on when there is no reader left.
                let (rx, mut tx) = std::io::pipe().map_err(|e| e.to_string())?;
                drop(rx);
                while std::io::Write::write_all(&mut tx, b"x").is_ok() {
                    std::thread::yield_now();
                }
                Stdio::from(tx)
            },
        };
        let c = spawn("c25", h, &rb, *r.pick(&[1, 4]), None, io);
        let v = verdict(c)?;
        req!(!v.starts_with("PANIC"), "{v:.500}");
        let got = tree(&rb);
        match need.first() {
            None => {
                req!(v.starts_with("OK"), "nothing goes to stdout, but the run fails: {v:.300}");
                cx.count("nothing_on_stdout", 1);
            },
            Some((_, f)) => {
                req!(v.starts_with("ERR"), "success was reported although nothing could be written to stdout");
                req!(f.is_none() == v.starts_with("ERR INIT"), "stdout fails for {f:?}, but: {v:.300}");
                leftovers(&sp, &rb, &ra, &reft, &got, *f, &|_| false, &|_| false, cx)?;
                cx.count(if f.is_none() { "failed_at_banner_or_metadata" } else { "failed_at_first_output" }, 1);
            },
        }
        Ok(!need.is_empty())
    });
}

// ------------------------------------------------------------------------------------------------ C35
fn spec35(h: u64, dir: &Path) -> Spec {
    let mut sp = spec25(h, dir, true);
    sp.banner = false;
    for o in sp.outputs.iter_mut().filter(|o| o.stream_mode == StreamMode::Stdout) {
        o.should_print_metadata = false;
    }
    sp
}
/// the same run with everything in files, and its directory tree
fn reference(sp: &Spec, rb: &Path, ra: &Path) -> Result<(Spec, Tree), String> {
    let mut refsp = retarget(sp, rb, ra);
    refsp.banner = false;
    for (k, o) in refsp.outputs.iter_mut().enumerate() {
        if o.stream_mode == StreamMode::Stdout {
            o.stream_mode = StreamMode::File;
            o.folder_name = ra.join(format!("stdout{k}")).to_str().unwrap().into();
            o.file_name = "f".into();
            o.should_print_metadata = false;
        }
    }
    let mut sim = make(&refsp).map_err(|m| format!("the undisturbed run fails: {m}"))?;
    sim.run().map_err(|m| format!("the undisturbed run fails: {m}"))?;
    drop(sim);
    Ok((refsp, tree(ra)))
}
/// blocks of the outputs on standard output, from the reference
fn stdout_blocks(sp: &Spec, refsp: &Spec, ra: &Path, reft: &Tree) -> Result<Vec<Vec<Vec<u8>>>, String> {
    let mut all = vec![];
    for (k, _) in sp.outputs.iter().enumerate().filter(|(_, o)| o.stream_mode == StreamMode::Stdout) {
        let o = &refsp.outputs[k];
        let f = |q| file(reft, out_path(o, sp.n_out, q).strip_prefix(ra).unwrap()).ok_or("reference is incomplete");
        let mut v = vec![];
        if o.string_conversion_mode == ToStringConversionMode::Vector {
            for q in 0..=sp.n_out {
                v.push(f(q)?);
            }
        } else {
            let mut l: Vec<Vec<u8>> = f(0)?.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect();
            let head = l.remove(0);
            l[0] = [head, l[0].clone()].concat();
            v = l;
        }
        all.push(v);
    }
    Ok(all)
}
/// a complete run into the folders of the killed one leaves what an undisturbed run leaves
fn restart(sp: &Spec, rb: &Path, reft: &Tree) -> Result<(), String> {
    let mut again = sp.clone();
    again.outputs.retain(|o| o.stream_mode == StreamMode::File);
    let mut sim = make(&again).map_err(|m| format!("a run into the folders of the killed one is refused: {m}"))?;
    sim.run().map_err(|m| format!("a run into the folders of the killed one fails: {m}"))?;
    drop(sim);
    let got = tree(rb);
    for (p, n) in &got {
        if let Node::File(b) = n {
            if p.to_str().unwrap().ends_with("_metadata.json") {
                req!(serde_json::from_slice::<serde_json::Value>(b).is_ok_and(|v| v == serde_json::to_value(&again.config()).unwrap()), "after a restart the metadata {} is wrong", p.display());
            } else {
                req!(file(reft, p).as_ref() == Some(b), "after a restart {} is not what an undisturbed run writes", p.display());
            }
        }
    }
    for (p, n) in reft {
        if matches!(n, Node::File(_)) && !p.to_str().unwrap().starts_with("stdout") {
            req!(got.contains_key(p), "after a restart {} is missing", p.display());
        }
    }
    Ok(())
}
pub fn c35(rep: &Rep) {
    rep.rule("photographs: before every step of random runs all output files are read back: exactly the outputs due so far are there, complete and with the bytes they have at the end of an undisturbed run. killed: a child process with outputs in files and on standard output is killed (SIGKILL at the beginning of a chosen step; SIGXFSZ inside a write; SIGKILL by the parent after a random delay); what it left, on disk and in the pipe, is everything due before and nothing later; then the whole run is repeated into the same folders. Non-trivial: outputs were due before the end.");
    rep.family("photographs", rep.n(2500, 40_000), if rep.thorough { 150.0 } else { 8.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let (ra, rb) = (dir.0.join("ref"), dir.0.join("run"));
        let mut sp = spec35(r.u64(), &rb);
        sp.outputs.retain(|o| o.stream_mode == StreamMode::File);
        if r.chance(0.2) {
            sp.n_out = r.range(10, 101);
        }
        cx.desc = format!("{} {:?}", sp.head(), sp.outputs);
        let (refsp, reft) = reference(&sp, &rb, &ra)?;
        let clk = clock(&reft)?;
        let mut sim = make(&sp)?;
        let shots: Rc<std::cell::RefCell<Vec<(u64, Tree)>>> = Default::default();
        let (sh, d) = (shots.clone(), rb.clone());
        ctl(|c| c.on_step = Some(Rc::new(move |k| sh.borrow_mut().push((k, tree(&d))))));
        ctl(|c| c.step_calls = 0);
        sim.run()?;
        reset();
        let mut most = 0;
        for (k, t) in shots.borrow().iter() {
            let due = clk.iter().filter(|x| **x as u64 <= *k).count();
            leftovers(&sp, &rb, &ra, &reft, t, Some(due), &|_| false, &|_| false, cx).map_err(|m| format!("before step {k}: {m}"))?;
            // nothing of the next output may be there yet
            for (j, o) in sp.outputs.iter().enumerate() {
                let rel = |p: PathBuf| p.strip_prefix(&rb).unwrap().to_path_buf();
                match o.string_conversion_mode {
                    ToStringConversionMode::Vector if due <= sp.n_out => req!(file(t, &rel(out_path(o, sp.n_out, due))).is_none(), "output {j}: file {due} is there before step {k}, before its time"),
                    ToStringConversionMode::Scalar => {
                        let n = file(t, &rel(out_path(o, sp.n_out, 0))).map_or(0, |b| b.iter().filter(|c| **c == b'\n').count());
                        req!(n == due + 1, "output {j}: {n} lines before step {k}, when {due} outputs were due");
                    },
                    _ => {},
                }
            }
            most = most.max(due);
            cx.count("photographs", 1);
        }
        let _ = refsp;
        Ok(most > 1)
    });
    rep.family("killed", rep.n(2000, 40_000), if rep.thorough { 300.0 } else { 16.0 }, |r, cx| {
        let dir = CaseDir::new(cx);
        let (ra, rb) = (dir.0.join("ref"), dir.0.join("run"));
        let h = r.u64();
        let sp = spec35(h, &rb);
        let (refsp, reft) = reference(&sp, &rb, &ra)?;
        let clk = clock(&reft)?;
        let blocks = stdout_blocks(&sp, &refsp, &ra, &reft)?;
        let mode = r.below(3);
        let last = *clk.last().unwrap() as u64;
        let (step, biggest) = (r.below(last as usize) as u64, reft.values().map(|n| if let Node::File(b) = n { b.len() } else { 0 }).max().unwrap());
        let lim = r.below(biggest + 50);
        let delay = r.below(12_000) as u64;
        let threads = *r.pick(&[1, 2, 4]);
        cx.desc = format!("{} threads={threads} {} {:?}", [format!("killed at step {step}"), format!("killed at {lim} bytes"), format!("killed after {delay} us")][mode], sp.head(), sp.outputs);
        fs::create_dir_all(&rb).unwrap();
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["child", "c35", &format!("{h:x}"), rb.to_str().unwrap(), &threads.to_string()])
            .arg(if mode == 1 { lim.to_string() } else { "-".into() })
            .arg(if mode == 0 { step.to_string() } else { "-".into() })
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("cannot start a child process");
        drop(c.stdin.take());
        let mut out = c.stdout.take().unwrap();
        let t = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = out.read_to_end(&mut v);
            v
        });
        if mode == 2 {
            std::thread::sleep(std::time::Duration::from_micros(delay));
            let _ = c.kill();
        }
        let mut e = String::new();
        c.stderr.take().unwrap().read_to_string(&mut e).map_err(|x| x.to_string())?;
        let st = c.wait().map_err(|x| x.to_string())?;
        let text = t.join().unwrap();
        let finished = st.success();
        if finished {
            req!(e.contains("OK") && mode != 0, "the child was to be killed but ends with {e:.300}");
        } else {
            use std::os::unix::process::ExitStatusExt;
            req!(st.signal() == Some(if mode == 1 { 25 } else { 9 }), "the child ends with {st} {e:.300}");
        }
        let got = tree(&rb);
        let n = sp.n_out + 1;
        let bl: Vec<&Vec<Vec<u8>>> = blocks.iter().collect();
        let upto = |f: usize| -> usize { blocks.iter().map(|b| b[..f].iter().map(|x| x.len()).sum::<usize>()).sum() };
        let on_pipe = |f: usize| -> Result<(), String> {
            let len = upto(f);
            req!(text.len() >= len, "standard output has {} bytes when {f} outputs of {len} bytes were complete", text.len());
            let cut: Vec<Vec<Vec<u8>>> = blocks.iter().map(|b| b[..f].to_vec()).collect();
            parse(&text[..len], &cut.iter().collect::<Vec<_>>()).map_err(|(at, _)| format!("standard output is damaged at byte {at} ({f} outputs were complete)"))?;
            Ok(())
        };
        let due = match mode {
            _ if finished => {
                leftovers(&sp, &rb, &ra, &reft, &got, Some(usize::MAX), &|_| false, &|k| sp.outputs[k].string_conversion_mode == ToStringConversionMode::Scalar, cx)?;
                on_pipe(n)?;
                n
            },
            0 => {
                let due = clk.iter().filter(|x| **x as u64 <= step).count();
                leftovers(&sp, &rb, &ra, &reft, &got, Some(due), &|_| false, &|_| false, cx)?;
                on_pipe(due)?;
                req!(text.len() == upto(due), "standard output has {} bytes, {} were due", text.len(), upto(due));
                cx.count("killed_at_a_step", 1);
                due
            },
            _ => {
                // some output was being written, or none
                let mut fits = None;
                let mut why = String::new();
                for f in (0..=n).rev() {
                    let r = if f == n {
                        leftovers(&sp, &rb, &ra, &reft, &got, Some(usize::MAX), &|_| false, &|k| sp.outputs[k].string_conversion_mode == ToStringConversionMode::Scalar, cx)
                    } else {
                        leftovers(&sp, &rb, &ra, &reft, &got, Some(f), &|_| true, &|_| false, cx)
                    };
                    match r.and_then(|_| on_pipe(f)) {
                        Ok(()) => {
                            fits = Some(f);
                            break;
                        },
                        Err(m) => why = format!("{why}; {f}: {m:.200}"),
                    }
                }
                if let Some(f) = fits {
                    for (k, o) in sp.outputs.iter().enumerate().filter(|(_, o)| o.stream_mode == StreamMode::File && o.string_conversion_mode == ToStringConversionMode::Vector) {
                        for q in f + 1..n {
                            let p = out_path(o, sp.n_out, q);
                            req!(!got.contains_key(p.strip_prefix(&rb).unwrap()), "output {k}: {} exists although output number {f} is not complete", p.display());
                        }
                    }
                }
                cx.count(if mode == 1 { "killed_within_a_write" } else { "killed_any_time" }, 1);
                fits.ok_or_else(|| format!("what the killed process left does not belong to any moment of the run: {why}"))?
            },
        };
        let _ = bl;
        cx.count("outputs_kept", due as u64);
        restart(&sp, &rb, &reft)?;
        cx.count("restarts", 1);
        Ok(due > 0 && due < n)
    });
}
