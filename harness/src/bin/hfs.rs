//! Local drives on a file system that may transfer little at a time and fail at any call.
use endbasic_std::storage::*;
use std::collections::BTreeMap;
#[path = "../fsm.rs"]
mod fsm;
use fsm::*;

fn world(max: usize) -> Storage {
    let f = fs();
    f.on = true;
    f.max = max;
    f.dirs = vec!["/h".into(), "/h/a".into(), "/h/a/sub".into()];
    f.files = vec![("/h/x".into(), b"outside".to_vec()), ("/h/a/one".into(), b"1\n".to_vec()), ("/h/a/sub/two".into(), b"22".to_vec())];
    let mut s = Storage::default();
    s.register_scheme("file", Box::new(DirectoryDriveFactory::default()));
    rt::check(s.mount("L", "file:///h/a").is_ok(), "existing directories can be mounted");
    rt::check(s.mount("M", "file:///h/new/dir").is_ok(), "missing directories are created");
    rt::check(fs().dirs.contains(&"/h/new/dir".to_owned()), "missing directories are created");
    s
}
type Model = BTreeMap<String, Vec<u8>>;
fn model() -> Model { BTreeMap::from([("/h/x".to_owned(), b"outside".to_vec()), ("/h/a/one".to_owned(), b"1\n".to_vec()), ("/h/a/sub/two".to_owned(), b"22".to_vec())]) }
fn same(m: &Model, but: Option<&str>) {
    let f = fs();
    for (n, c) in &f.files {
        if n.is_empty() || Some(&n[..]) == but { continue; }
        match m.get(n) { Some(w) => rt::check(w == c, "files hold exactly what was stored"), None => rt::fail("nothing else is created") }
    }
    for n in m.keys() { if Some(&n[..]) != but { rt::check(f.find(n).is_some(), "files stay until they are deleted"); } }
    for (k, o) in f.fds.iter().enumerate() { let _ = k; rt::check(o.is_none(), "files are closed"); }
}
fn list(s: &Storage, d: &str) -> Option<Vec<(String, u64)>> { rt::block_on(s.enumerate(d)).ok().map(|e| e.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect()) }
fn names(m: &Model, d: &str) -> Vec<(String, u64)> { m.iter().filter_map(|(n, c)| n.strip_prefix(d).and_then(|n| n.strip_prefix('/')).filter(|n| !n.contains('/')).map(|n| (n.to_owned(), c.len() as u64))).collect() }

/// Sequences of operations. Case: the bytes that move at once and the first operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_disk(case: u32) {
    let mut s = world([1, 2, 4096][case as usize / 8 % 3]);
    let mut m = model();
    const N: [(&str, &str); 4] = [("L:one", "/h/a/one"), ("l:/Two words.bas", "/h/a/Two words.bas"), ("M:one", "/h/new/dir/one"), ("M:é", "/h/new/dir/é")];
    for step in 0..if case < 100 { 3 } else { 4 } {
        let op = if step == 0 { case as usize % 8 } else { rt::choose(8) };
        match op {
            0 | 1 => {
                let (n, p) = rt::pick(&N);
                let c = rt::bytes(if op == 0 { rt::choose(2) } else { 3 });
                rt::check(rt::block_on(s.put(n, &c)).is_ok(), "files can be stored");
                m.insert(p.to_owned(), c);
                rt::check(fs().dirty.is_empty(), "what was stored is on the disk");
            }
            2 => { let (n, p) = rt::pick(&N); rt::check(rt::block_on(s.get(n)).ok() == m.get(p).cloned(), "files are read back exactly"); }
            3 => { let (n, p) = rt::pick(&N); rt::check(rt::block_on(s.delete(n)).is_ok() == m.remove(p).is_some(), "files that exist can be deleted"); }
            4 => { rt::check(list(&s, "L:").as_deref() == Some(&names(&m, "/h/a")[..]), "listings match what is stored"); }
            5 => { rt::check(list(&s, "m:/").as_deref() == Some(&names(&m, "/h/new/dir")[..]), "listings match what is stored"); }
            6 => {
                let (n, p) = rt::pick(&N);
                let r = rt::block_on(s.copy(n, "M:copy")).is_ok();
                rt::check(r == m.contains_key(p), "files that exist can be copied");
                if let Some(c) = m.get(p).cloned() { m.insert("/h/new/dir/copy".to_owned(), c); }
            }
            _ => {
                // Somebody else changes the directory.
                fs().put("/h/a/one", b"other");
                m.insert("/h/a/one".to_owned(), b"other".to_vec());
            }
        }
        same(&m, None);
    }
    std::mem::forget(s);
    end();
    rt::cover("done");
}

/// One operation with any of its calls failing. Case: the operation and the bytes that move at once.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_disk_fail(case: u32) {
    let mut s = world([2, 4096][case as usize / 8 % 2]);
    let mut m = model();
    let c = rt::bytes(3);
    fs().fail = rt::choose(12);
    fs().err = rt::pick(&[EINTR, EIO, ENOSPC, EACCES]);
    let lost = fs().err != EINTR;
    let (ok, but) = match case % 8 {
        0 => { let r = rt::block_on(s.put("L:new", &c)).is_ok(); if r { m.insert("/h/a/new".into(), c.clone()); rt::check(fs().dirty.is_empty(), "what was stored is on the disk"); } (r, Some("/h/a/new")) }
        1 => { let r = rt::block_on(s.put("L:one", &c)).is_ok(); if r { m.insert("/h/a/one".into(), c.clone()); rt::check(fs().dirty.is_empty(), "what was stored is on the disk"); } (r, Some("/h/a/one")) }
        2 => { let r = rt::block_on(s.get("L:one")); if let Ok(r) = &r { rt::check(&r[..] == b"1\n", "files are read back exactly"); } (r.is_ok(), None) }
        3 => { let r = rt::block_on(s.delete("L:one")).is_ok(); if r { m.remove("/h/a/one"); } (r, None) }
        4 => { let r = list(&s, "L:"); if let Some(r) = &r { rt::check(*r == names(&m, "/h/a"), "listings match what is stored"); } (r.is_some(), None) }
        5 => { let r = rt::block_on(s.copy("L:one", "M:copy")).is_ok(); if r { m.insert("/h/new/dir/copy".into(), b"1\n".to_vec()); } (r, Some("/h/new/dir/copy")) }
        6 => { let r = s.mount("N", "file:///h/a").is_ok(); rt::check(s.mounted().contains_key("N") == r, "drives that fail are not mounted"); (r, None) }
        _ => { let r = s.mount("N", "file:///h/deep/er").is_ok(); rt::check(s.mounted().contains_key("N") == r, "drives that fail are not mounted"); (r, None) }
    };
    let failed = std::mem::take(&mut fs().failed);
    fs().fail = usize::MAX;
    if !failed { rt::check(ok, "operations succeed if nothing fails"); }
    if failed && lost && case % 8 < 2 { rt::check(!ok, "failures are reported"); }
    same(&m, if ok { None } else { but });
    rt::cover(if !failed { "worked" } else if ok { "recovered" } else { "failed" });
    // What failed once can be done again.
    if case % 8 < 2 { rt::check(rt::block_on(s.put(["L:new", "L:one"][case as usize % 8], &c)).is_ok(), "failures do not last"); rt::check(fs().content(but.unwrap()) == Some(&c[..]), "files hold exactly what was stored"); }
    std::mem::forget(s);
    end();
}

/// Names of files never leave the directory of the drive. Case: the operation and the first character.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_disk_names(case: u32) {
    const SET: [&str; 7] = ["a", ".", "/", ":", "\\", "é", " "];
    let mut s = world(4096);
    let m = model();
    rt::check(s.cd("L:").is_ok(), "drives can be entered");
    let mut p = String::new();
    if case / 7 % 2 == 1 { p += "L:"; }
    p += SET[case as usize % 7];
    for _ in 0..if case < 100 { 3 } else { 4 } { let k = rt::choose(8); if k == 7 { break; } p += SET[k]; }
    fs().touched.clear();
    let ok = match case % 100 / 14 {
        0 => rt::block_on(s.put(&p, b"new")).is_ok(),
        1 => rt::block_on(s.get(&p)).is_ok(),
        2 => rt::block_on(s.delete(&p)).is_ok(),
        3 => rt::block_on(s.copy("one", &p)).is_ok(),
        _ => list(&s, &p).is_some(),
    };
    for t in &fs().touched {
        let n = if t == "/h/a" { Some("one") } else { t.strip_prefix("/h/a/") };
        rt::check(n.is_some_and(|n| !n.contains('/') && n != "." && n != ".."), "only the files of the directory are touched");
    }
    let made = fs().files.iter().filter(|f| !f.0.is_empty() && !m.contains_key(&f.0)).count();
    // Copies to the directory itself keep their name.
    let own = matches!(&p[..], "/" | "L:" | "L:/");
    rt::check(made == (ok && !own && matches!(case % 100 / 14, 0 | 3)) as usize, "files are created exactly when stored");
    for (n, c) in &m { rt::check(fs().content(n) == Some(&c[..]), "files hold exactly what was stored"); }
    std::mem::forget(s);
    end();
    rt::cover(if ok { "accepted" } else { "rejected" });
}

rt::harness_main!(h_disk, h_disk_fail, h_disk_names);
