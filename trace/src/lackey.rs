//! The machine-level pass of C20: the library as shipped (release build, no instrumentation) under valgrind's lackey
//! tool, which reports every instruction executed and every address accessed. The parent prepares the inputs, the child
//! (under valgrind) only executes them, between stores to a marker page.
use crate::c20::*;
use crate::engine::*;
use std::io::BufRead;
use std::sync::Arc;

const MARK: usize = 0x4_2000_0000;
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
#[inline(never)]
fn mark(x: u64) { unsafe { (MARK as *mut u64).write_volatile(x) } }
fn code(o: Op) -> (u8, u8) {
    match o { Op::Aes(k) => (0, k), Op::Enc(k) => (1, k), Op::Dec(k) => (2, k), Op::Stream => (3, 0), Op::Mac(k) => (4, k), Op::MacParts(k) => (5, k), Op::MacVerify(k) => (6, k), Op::XPk => (7, 0), Op::XDh => (8, 0), Op::EdPk => (9, 0), Op::EdSign => (10, 0), Op::Verify16 => (11, 0), Op::LeakCompare => (12, 0), Op::LeakTable => (13, 0), Op::LeakBranch => (14, 0), Op::LeakSlices => (15, 0), Op::Kdf(k) => (16, k), Op::Hash(k) => (17, k) }
}
fn decode(a: u8, k: u8) -> Op {
    match a { 0 => Op::Aes(k), 1 => Op::Enc(k), 2 => Op::Dec(k), 3 => Op::Stream, 4 => Op::Mac(k), 5 => Op::MacParts(k), 6 => Op::MacVerify(k), 7 => Op::XPk, 8 => Op::XDh, 9 => Op::EdPk, 10 => Op::EdSign, 11 => Op::Verify16, 12 => Op::LeakCompare, 13 => Op::LeakTable, 14 => Op::LeakBranch, 16 => Op::Kdf(k), 17 => Op::Hash(k), _ => Op::LeakSlices }
}
/// Inputs of one execution as bytes: op, lengths, fields.
fn pack(op: Op, l: Len, x: &In, out: &mut Vec<u8>) {
    let (a, k) = code(op);
    out.extend_from_slice(&[a, k]);
    for v in [l.k, l.n, l.a, l.m, l.t] { out.extend_from_slice(&(v as u16).to_le_bytes()) }
    for (f, n) in [(&x.key[..], l.k), (&x.nonce[..], l.n), (&x.aad[..], l.a), (&x.msg[..], l.m), (&x.tag[..], l.t)] { out.extend_from_slice(&f[..n]) }
}
/// Runs under valgrind: executes the inputs of a file, each once; writes the outcomes to another.
pub fn child(input: &str, output: &str) {
    let p = unsafe { mmap(MARK as *mut u8, 4096, 3, 0x22 | 0x100000, -1, 0) };
    assert!(p as usize == MARK, "marker page");
    let d = std::fs::read(input).unwrap();
    let mut x = new_in();
    let mut res = vec![];
    let mut p = 0;
    while p < d.len() {
        let op = decode(d[p], d[p + 1]);
        p += 2;
        let mut l = [0usize; 5];
        for v in &mut l { *v = u16::from_le_bytes([d[p], d[p + 1]]) as usize; p += 2 }
        let len = Len { k: l[0], n: l[1], a: l[2], m: l[3], t: l[4] };
        for (f, n) in [(&mut x.key[..], l[0]), (&mut x.nonce[..], l[1]), (&mut x.aad[..], l[2]), (&mut x.msg[..], l[3]), (&mut x.tag[..], l[4])] { f[..n].copy_from_slice(&d[p..p + n]); p += n }
        x.out.fill(0);
        rt::arena_reset();
        rt::begin(false);
        mark(1);
        exec(op, len, &mut x);
        mark(2);
        rt::end();
        res.push(x.outcome as u8);
    }
    std::fs::write(output, res).unwrap();
}
struct Window { hash: u64, instrs: u64, accesses: u64, outcome: u8, lines: Vec<String> }
fn run(dir: &std::path::Path, tag: &str, inputs: &[u8], keep: bool) -> Result<Vec<Window>, String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let (fi, fo) = (dir.join(format!("{tag}.in")), dir.join(format!("{tag}.out")));
    std::fs::write(&fi, inputs).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&fo);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    // a fixed environment: it is part of the stack's layout
    let mut c = std::process::Command::new("/bin/sh")
        .args(["-c", "exec valgrind --tool=lackey --trace-mem=yes --log-fd=9 \"$0\" lackey-child \"$1\" \"$2\" 9>&1 1>/dev/null 2>/dev/null"])
        .arg(exe).arg(&fi).arg(&fo).env_clear().env("PATH", std::env::var("PATH").unwrap_or("/usr/bin:/bin".into()))
        .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut rd = std::io::BufReader::with_capacity(1 << 20, c.stdout.take().unwrap());
    let mk = format!(" S {MARK:x},8").into_bytes();
    let mk0 = format!(" S {MARK:08x},8").into_bytes();
    let mut res: Vec<Window> = vec![];
    let mut on = false;
    let mut line = vec![];
    loop {
        line.clear();
        if rd.read_until(b'\n', &mut line).map_err(|e| e.to_string())? == 0 { break }
        while matches!(line.last(), Some(b'\n')) { line.pop(); }
        if line.first() == Some(&b'=') { continue }
        if line == mk || line == mk0 {
            on = !on;
            if on { res.push(Window { hash: 0x1234567, instrs: 0, accesses: 0, outcome: 0, lines: vec![] }) }
            continue;
        }
        if !on { continue }
        let w = res.last_mut().unwrap();
        let mut hh = w.hash;
        for ch in line.chunks(8) { let mut b = [0; 8]; b[..ch.len()].copy_from_slice(ch); let t = (hh ^ u64::from_le_bytes(b)) as u128 * 0xd6e8feb86659fd93u128; hh = (t as u64 ^ (t >> 64) as u64).rotate_left(23).wrapping_add(0xa0761d6478bd642f) }
        w.hash = hh;
        if line[0] == b'I' { w.instrs += 1 } else { w.accesses += 1 }
        if keep { w.lines.push(String::from_utf8_lossy(&line).into_owned()) }
    }
    let st = c.wait().map_err(|e| e.to_string())?;
    let outs = std::fs::read(&fo).unwrap_or_default();
    let _ = std::fs::remove_file(&fi);
    let _ = std::fs::remove_file(&fo);
    if !st.success() || outs.len() != res.len() { return Err(format!("valgrind run failed: {st}, {} windows, {} outcomes", res.len(), outs.len())) }
    for (w, o) in res.iter_mut().zip(outs) { w.outcome = o }
    Ok(res)
}
pub fn families(t: bool, dir: String) -> Vec<Family> {
    let cs: Arc<Vec<Class>> = Arc::new(classes(t, true));
    // items: parts of classes of about the same cost
    let mut items: Vec<(usize, u64, u64)> = vec![];
    for (i, c) in cs.iter().enumerate() {
        let step = match c.op { Op::XPk | Op::XDh | Op::EdPk | Op::EdSign => 20, _ => 400 };
        let mut f = 0;
        while f < c.n { items.push((i, f, (f + step).min(c.n))); f += step }
    }
    // the expensive ones first
    items.sort_by_key(|(i, f, _)| (!matches!(cs[*i].op, Op::XPk | Op::XDh | Op::EdPk | Op::EdSign), *i, *f));
    let n: u64 = cs.iter().map(|c| c.n).sum();
    let dir = std::path::PathBuf::from(dir);
    vec![fam("machine-level", format!("release build without instrumentation: {} classes, {n} contents, every instruction and every address accessed", cs.len()), items.len() as u64, move |it, c| {
        let (i, f, to) = items[it as usize];
        let cl = &cs[i];
        let mut x = new_in();
        let mut buf = vec![];
        let mut ids = vec![];
        // twice the first: lazily initialised state; the first of the two is not compared
        for j in [0, 0].into_iter().chain(f.max(1)..to) {
            (cl.make)(j, &mut x);
            pack(cl.op, cl.len, &x, &mut buf);
            ids.push((j, h(&[&buf[buf.len() - cl.len.k.min(8)..], &j.to_le_bytes()])));
        }
        let ws = match run(&dir, &format!("{it}"), &buf, false) { Ok(w) => w, Err(e) => panic!("{e}") };
        assert_eq!(ws.len(), ids.len());
        let mut base: Vec<(u8, u64, u64)> = vec![];
        for (w, (j, _)) in ws.iter().zip(&ids).skip(1) {
            assert!(w.instrs > 50, "empty window");
            c.trace(w.instrs + w.accesses, h(&[cl.name.as_bytes(), &j.to_le_bytes()]), w.hash);
            c.count("instructions", w.instrs);
            c.count("memory accesses", w.accesses);
            match base.iter().find(|b| b.0 == w.outcome) {
                None => base.push((w.outcome, w.hash, *j)),
                Some(b) if b.1 != w.hash => {
                    let (p, q) = (b.2, *j);
                    c.fail(|| {
                        let mut buf = vec![];
                        let mut d = vec![];
                        for j in [p, p, q] { (cl.make)(j, &mut x); pack(cl.op, cl.len, &x, &mut buf); d.push(format!("key {} message {} tag {}", show(&x.key[..cl.len.k]), show(&x.msg[..cl.len.m]), show(&x.tag[..cl.len.t]))) }
                        let ws = run(&dir, &format!("{it}e"), &buf, true).unwrap_or_default();
                        let diff = if ws.len() == 3 { let (a, b) = (&ws[1].lines, &ws[2].lines); let k = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len())); format!("traces of {} and {} lines, first different at {k}: {:?} / {:?}, after {:?}", a.len(), b.len(), a.get(k), b.get(k), a[..k].iter().rev().find(|l| l.starts_with('I'))) } else { "no traces".into() };
                        format!("{}: machine-level trace depends on the data\n  {diff}\n  execution {p}: {}\n  execution {q}: {}", cl.name, d[0], d[2])
                    });
                    return;
                }
                _ => {}
            }
        }
        if f == 0 { c.note(|| format!("{}: {} instructions, {} accesses in every one of {} executions", cl.name, ws[1].instrs, ws[1].accesses, ws.len() - 1)) }
    }).limit(700)]
}
/// A planted leak must be seen at machine level too.
pub fn selftest(dir: &str) -> Result<(), String> {
    let mut x = new_in();
    let l = Len { k: 16, n: 0, a: 0, m: 16, t: 0 };
    let mut buf = vec![];
    for i in 0..6u8 { x.key[..16].fill(7); x.msg[..16].fill(7); x.msg[i as usize] = 9; pack(Op::LeakCompare, l, &x, &mut buf) }
    for i in 0..6u8 { x.key[0] = 16 * i; pack(Op::LeakTable, Len { m: 0, k: 1, ..l }, &x, &mut buf) }
    for _ in 0..3u8 { pack(Op::LeakTable, Len { m: 0, k: 1, ..l }, &x, &mut buf) }
    let ws = run(std::path::Path::new(dir), "self", &buf, false)?;
    let d = |r: std::ops::Range<usize>| ws[r].iter().map(|w| w.hash).collect::<std::collections::HashSet<_>>().len();
    if d(0..6) != 6 || d(6..12) != 6 || d(12..15) != 1 { return Err(format!("machine-level self-test: {} {} {}", d(0..6), d(6..12), d(12..15))) }
    Ok(())
}
