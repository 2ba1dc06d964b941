//! The commands that talk to the cloud service, against a service that may refuse anything.
use endbasic_client::{DirectoryEntry, GetFilesResponse, LoginResponse, Service, SignupRequest};
use endbasic_repl::editor::Editor;
use endbasic_std::console::*;
use endbasic_std::program::Program;
use endbasic_std::storage::{FileAcls, Storage};
use rt::lang::{self, Outcome, World, V};
use rt::stdm::{self, Cons, Ev};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;

/// The service: what it was asked and what it knows.
#[derive(Default)]
struct Srv { session: Option<String>, calls: Vec<String>, refuse: bool, motd: usize, files: BTreeMap<(String, String), Vec<u8>>, readers: Vec<String>, shared: Option<(Vec<String>, Vec<String>)> }
impl Srv {
    fn call(&mut self, s: String) -> io::Result<()> {
        self.calls.push(s);
        if self.refuse { Err(io::Error::new(io::ErrorKind::PermissionDenied, "refused")) } else { Ok(()) }
    }
}
#[async_trait::async_trait(?Send)]
impl Service for Srv {
    async fn signup(&mut self, r: &SignupRequest) -> io::Result<()> { self.call(format!("{:?}", r)) }
    async fn login(&mut self, u: &str, p: &str) -> io::Result<LoginResponse> {
        self.call(format!("login {} {}", u, p))?;
        self.session = Some(u.to_owned());
        Ok(serde_json::from_str(["{\"access_token\":\"t\",\"motd\":[]}", "{\"access_token\":\"t\",\"motd\":[\"hello all\",\"\"]}"][self.motd]).unwrap())
    }
    async fn logout(&mut self) -> io::Result<()> { self.call("logout".into())?; self.session = None; Ok(()) }
    fn is_logged_in(&self) -> bool { self.session.is_some() }
    fn logged_in_username(&self) -> Option<String> { self.session.clone() }
    async fn get_files(&mut self, u: &str) -> io::Result<GetFilesResponse> {
        self.call(format!("list {}", u))?;
        let f: Vec<String> = self.files.iter().filter(|((w, _), _)| w == u).map(|((_, n), v)| format!("{{\"filename\":\"{}\",\"mtime\":0,\"length\":{}}}", n, v.len())).collect();
        Ok(serde_json::from_str(&format!("{{\"files\":[{}],\"disk_quota\":{{\"bytes\":100,\"files\":5}},\"disk_free\":{{\"bytes\":30,\"files\":4}}}}", f.join(","))).unwrap())
    }
    async fn get_file(&mut self, u: &str, f: &str) -> io::Result<Vec<u8>> { self.call(format!("get {} {}", u, f))?; self.files.get(&(u.into(), f.into())).cloned().ok_or(io::ErrorKind::NotFound.into()) }
    async fn get_file_acls(&mut self, u: &str, f: &str) -> io::Result<FileAcls> { self.call(format!("acls {} {}", u, f))?; Ok(FileAcls::default().with_readers(self.readers.clone())) }
    async fn patch_file_content(&mut self, u: &str, f: &str, c: Vec<u8>) -> io::Result<()> { self.call(format!("put {} {}", u, f))?; self.files.insert((u.into(), f.into()), c); Ok(()) }
    async fn patch_file_acls(&mut self, u: &str, f: &str, add: &FileAcls, remove: &FileAcls) -> io::Result<()> { self.shared = Some((add.readers().to_vec(), remove.readers().to_vec())); self.call(format!("share {} {}", u, f)) }
    async fn delete_file(&mut self, u: &str, f: &str) -> io::Result<()> { self.call(format!("delete {} {}", u, f))?; self.files.remove(&(u.into(), f.into())).map(|_| ()).ok_or(io::ErrorKind::NotFound.into()) }
}
fn entry(_: DirectoryEntry) {}

struct Sess { m: endbasic_std::Machine, c: Rc<RefCell<Cons>>, w: Rc<World>, program: Rc<RefCell<Editor>>, storage: Rc<RefCell<Storage>>, srv: Rc<RefCell<Srv>> }
fn sess() -> Sess {
    let _ = entry;
    let w = lang::world();
    let (mut b, c, _, _, _) = stdm::builder(&w);
    c.borrow_mut().interactive = true;
    let program = Rc::new(RefCell::new(Editor::default()));
    let storage = Rc::new(RefCell::new(Storage::default()));
    let srv = Rc::new(RefCell::new(Srv::default()));
    endbasic_client::add_all(&mut b, srv.clone(), c.clone(), storage.clone(), "https://x/");
    let m = b.make_interactive().with_program(program.clone()).with_storage(storage.clone()).build();
    Sess { m, c, w, program, storage, srv }
}
impl Sess {
    fn run(&mut self, src: &str) -> Outcome {
        rt::log(src);
        self.c.borrow_mut().log.clear();
        if let Err(e) = self.m.compile(&mut src.as_bytes()) { return stdm::outcome(Err(e)); }
        stdm::outcome(rt::block_on(self.m.exec()))
    }
    fn text(&self) -> String { self.c.borrow().text() }
    fn keys(&self, s: &str) { for ch in s.chars() { self.c.borrow_mut().keys.push_back(match ch { '\n' => Key::NewLine, '\u{3}' => Key::Interrupt, c => Key::Char(c) }); } }
    fn calls(&self) -> Vec<String> { std::mem::take(&mut self.srv.borrow_mut().calls) }
    fn target(&self, d: &str) -> Option<String> { self.storage.borrow().mounted().get(d).map(|u| u.to_string()) }
}

/// Sequences of commands with a service that may refuse. Case: the first command and what comes before.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_session(case: u32) {
    const OPS: u32 = 16;
    let mut s = sess();
    s.srv.borrow_mut().files.insert(("u2".into(), "f.bas".into()), b"two\n".to_vec());
    let (deep, case) = (case / 100, case % 100);
    let before: &[usize] = [&[][..], &[0], &[0, 3], &[15, 0]][case as usize / OPS as usize];
    let (mut session, mut cloud, mut x, mut here, mut text) = (None::<String>, None::<String>, false, "MEMORY", String::from("one\n"));
    let mut files: BTreeMap<(String, String), Vec<u8>> = s.srv.borrow().files.clone();
    let mut mem: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    s.program.borrow_mut().load(None, &text);
    let steps = before.len() + 2 + deep as usize + (case < OPS) as usize;
    for step in 0..steps {
        let op = if step < before.len() { before[step] } else if step == before.len() { (case % OPS) as usize } else { rt::choose(OPS as usize) };
        let refuse = step >= before.len() && rt::choose(2) == 1;
        s.srv.borrow_mut().refuse = refuse;
        let mut calls: Vec<String> = vec![];
        let mut gone = false;
        // Where a file of the CLOUD drive, of the X drive or of the current one is.
        let user = cloud.as_deref().and_then(|c| c.strip_prefix("cloud://")).map(|u| u.to_owned());
        let (cmd, ok): (&str, bool) = match op {
            0 | 1 | 13 => {
                let (cmd, u, p) = [("LOGIN \"u1\", \"pw\"", "u1", "pw"), ("LOGIN \"u1\"", "u1", "typed"), ("LOGIN \"u2\", \"\"", "u2", "")][if op == 13 { 2 } else { op }];
                if op == 1 && session.is_none() { gone = rt::choose(2) == 1; s.keys(if gone { "ty\u{3}" } else { "typed\n" }); }
                let ok = if session.is_some() || gone { false } else {
                    calls.push(format!("login {} {}", u, p));
                    if refuse { false } else { session = Some(u.into()); if cloud.is_none() { cloud = Some(format!("cloud://{}", u)); true } else { false } }
                };
                (cmd, ok)
            }
            2 => ("LOGOUT", if session.is_none() || here == "CLOUD" { false } else { calls.push("logout".into()); cloud = None; if refuse { false } else { session = None; true } }),
            3 => ("CD \"CLOUD:/\"", { if cloud.is_some() { here = "CLOUD"; } cloud.is_some() }),
            4 => ("CD \"memory:\"", { here = "MEMORY"; true }),
            5 => ("MOUNT \"cloud://u2\" AS \"x\"", { let ok = !x; x = true; ok }),
            6 => ("UNMOUNT \"Cloud\"", { let ok = cloud.is_some() && here != "CLOUD"; if ok { cloud = None; } ok }),
            7..=9 | 11 | 12 => {
                let (cmd, what) = [("SAVE \"CLOUD:/f.bas\"", "put"), ("LOAD \"cloud:f\"", "get"), ("KILL \"CLOUD:f.bas\"", "delete"), ("", ""), ("SAVE \"f.bas\"", "put"), ("LOAD \"f.bas\"", "get")][op - 7];
                let on = if op < 11 || here == "CLOUD" { cloud.clone() } else { Some("memory://".into()) };
                let local = on.as_deref() == Some("memory://");
                let ok = match (&on, local) {
                    (None, _) => false,
                    (_, true) => match what { "put" => { mem.insert(format!("{}f.bas", if op < 11 || here == "CLOUD" { "CLOUD:" } else { "" }), text.clone().into_bytes()); true } _ => { let k = format!("{}f.bas", if op < 11 || here == "CLOUD" { "CLOUD:" } else { "" }); if what == "get" { match mem.get(&k) { Some(v) => { text = String::from_utf8(v.clone()).unwrap(); true } None => false } } else { mem.remove(&k).is_some() } } },
                    _ => {
                        let u = user.clone().unwrap();
                        calls.push(format!("{} {} f.bas", what, u));
                        let k = (u, "f.bas".to_owned());
                        if refuse { false } else { match what { "put" => { files.insert(k, text.clone().into_bytes()); true } "get" => match files.get(&k) { Some(v) => { text = String::from_utf8(v.clone()).unwrap(); true } None => false }, _ => files.remove(&k).is_some() } }
                    }
                };
                (cmd, ok)
            }
            10 => ("DIR \"X:\"", if x { calls.push("list u2".into()); !refuse } else { false }),
            14 => ("COPY \"X:/f.bas\", \"MEMORY:/f.bas\"", if x { calls.push("get u2 f.bas".into()); match files.get(&("u2".into(), "f.bas".into())) { Some(v) if !refuse => { mem.insert("f.bas".into(), v.clone()); true } _ => false } } else { false }),
            _ => ("MOUNT \"memory://\" AS \"CLOUD\"", { let ok = cloud.is_none(); if ok { cloud = Some("memory://".into()); } ok }),
        };
        // A drive of memory that goes away loses its files.
        if cloud.as_deref() != Some("memory://") { mem.retain(|k, _| !k.starts_with("CLOUD:")); }
        let o = s.run(cmd);
        rt::check(matches!(o, Outcome::Eof) == ok, "commands fail exactly when they must");
        rt::check(ok || matches!(o, Outcome::Exc(1, 1, _)), "failures are at the command");
        rt::check(s.calls() == calls, "the service is asked for exactly what is needed");
        rt::check(s.srv.borrow().session == session, "sessions begin and end as asked");
        rt::check(s.target("CLOUD") == cloud && s.target("X").is_some() == x, "the drives are the right ones");
        rt::check(s.storage.borrow().cwd().starts_with(here), "the current drive is the right one");
        rt::check(s.c.borrow().keys.is_empty(), "the password is asked for when it is needed");
        rt::check(s.srv.borrow().files == files, "files are stored as they were sent");
        rt::check(s.program.borrow().text() == text, "programs are loaded as they are stored");
        let t = s.text();
        rt::check(!t.contains("typed") && !t.contains("pw"), "passwords are not shown");
        if op == 10 && ok { let f = files.get(&("u2".into(), "f.bas".into())); rt::check(t.contains("f.bas") == f.is_some() && t.contains(if f.is_some() { "1 file(s), 4 bytes" } else { "0 file(s), 0 bytes" }) && t.contains("30 of 100 bytes free"), "files and quotas are listed"); }
        if op == 2 && ok { rt::check(t.contains("Good bye!"), "leaving is reported"); }
    }
    rt::cover("done");
    std::mem::forget(s);
}

/// Whether a text changes who can read a file, and how.
fn acl_of(t: &str) -> Option<(String, bool)> {
    let c: Vec<char> = t.chars().collect();
    if c.len() < 3 || !matches!(c[c.len() - 1], 'r' | 'R') { return None; }
    let add = match c[c.len() - 2] { '+' => true, '-' => false, _ => return None };
    Some((c[..c.len() - 2].iter().collect(), add))
}

/// Changes of up to five characters. Case: their length and where a character that is not ASCII is.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_acl(case: u32) {
    let mut s = sess();
    s.srv.borrow_mut().session = Some("u1".into());
    rt::block_on(async {}); 
    rt::check(matches!(s.run("MOUNT \"cloud://u1\" AS \"CLOUD\""), Outcome::Eof), "mounted");
    let (n, wide) = (case as usize / 8, case as usize % 8);
    let mut t = String::new();
    for k in 0..n {
        if k + 1 == wide { t.push(rt::pick(&['é', '€', '𝄞'])); } else { let c = rt::u8_() & 127; rt::assume(c >= 32); rt::assume(c < 127); t.push(c as char); }
    }
    s.w.strs.borrow_mut().push(t.clone());
    let o = s.run("SHARE \"CLOUD:/f.bas\", SV(0)");
    let r = s.srv.borrow();
    match acl_of(&t) {
        Some((u, add)) => {
            rt::check(matches!(o, Outcome::Eof), "valid changes are accepted");
            let one = (vec![u], vec![]);
            rt::check(r.shared == Some(if add { one } else { (one.1, one.0) }), "the change is the one that was asked for");
            rt::cover("accepted");
        }
        None => {
            rt::check(matches!(o, Outcome::Exc(1, 23, ref m) if m.starts_with("Invalid ACL '")), "invalid changes are reported at the argument");
            rt::check(r.calls.is_empty(), "invalid changes have no effect");
            rt::cover("rejected");
        }
    }
    drop(r);
    std::mem::forget(s);
}

/// Sharing files of any drive. Case: the drive and the first change.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_share(case: u32) {
    const ACL: [&str; 7] = ["bob+r", "ann-R", "public+r", "PubLic+R", "public-r", "+r", "x+w"];
    let mut s = sess();
    let path = ["CLOUD:/f.bas", "cloud:f.bas", "X:/f.bas", "MEMORY:/f.bas", "f.bas"][case as usize / 8];
    let user = ["u1", "u1", "u2", "", ""][case as usize / 8];
    rt::check(matches!(s.run("MOUNT \"cloud://u1\" AS \"CLOUD\": MOUNT \"cloud://u2\" AS \"X\": SAVE \"MEMORY:/f.bas\""), Outcome::Eof), "mounted");
    let session = rt::choose(2) == 1;
    if session { s.srv.borrow_mut().session = Some("u1".into()); }
    s.srv.borrow_mut().refuse = rt::choose(2) == 1;
    let readers = [&[][..], &["a", "b"]][rt::choose(2)];
    s.srv.borrow_mut().readers = readers.iter().map(|r| r.to_string()).collect();
    let mut acls = vec![];
    if case % 8 < 7 { acls.push(ACL[case as usize % 8]); for _ in 0..2 { let k = rt::choose(8); if k == 7 { break; } acls.push(ACL[k]); } }
    let mut src = format!("SHARE \"{}\"", path);
    for a in &acls { src += &format!(", \"{}\"", a); }
    let o = s.run(&src);
    let t = s.text();
    let changes: Option<Vec<(String, bool)>> = acls.iter().map(|a| acl_of(a)).collect();
    let refused = s.srv.borrow().refuse && !user.is_empty();
    let mut calls = vec![];
    let ok = match &changes {
        None => false,
        Some(c) if c.is_empty() => { if !user.is_empty() { calls.push(format!("acls {} f.bas", user)); } !refused }
        Some(_) => { if !user.is_empty() { calls.push(format!("share {} f.bas", user)); } !refused }
    };
    rt::check(s.calls() == calls, "the service is asked for exactly what is needed");
    rt::check(matches!(o, Outcome::Eof) == ok, "commands fail exactly when they must");
    if let (true, Some(c)) = (ok, &changes) {
        let pick = |want: bool| c.iter().filter(|(_, a)| *a == want).map(|(u, _)| u.clone()).collect::<Vec<_>>();
        let (add, remove) = (pick(true), pick(false));
        if c.is_empty() {
            let r: Vec<&str> = if user.is_empty() { vec![] } else { readers.to_vec() };
            let mut want = if r.is_empty() { format!("\n    No ACLs on {}\n", path) } else { format!("\n    Reader ACLs on {}:\n", path) };
            for x in r { want += &format!("    {}\n", x); }
            rt::check(t == want + "\n", "the readers are listed");
        } else {
            if !user.is_empty() { rt::check(s.srv.borrow().shared == Some((add.clone(), remove)), "the changes are the ones that were asked for"); }
            let public = add.iter().any(|u| u.to_lowercase() == "public");
            let flat = t.split_whitespace().collect::<Vec<_>>().join(" ");
            rt::check(flat.contains("publicly readable") == (public && session) || !session, "sharing with everybody is confirmed");
            rt::check(flat.contains("https://") == (public && session), "the address is shown when there is one");
            if public && session { rt::check(flat.ends_with("https://x/?run=u1/f.bas"), "the address is the one of the file"); }
        }
    } else if let Some(k) = acls.iter().position(|a| acl_of(a).is_none()) {
        let at = src.find(&format!("\"{}\"", acls[k])).unwrap() + 1;
        rt::check(matches!(o, Outcome::Exc(1, c, _) if c == at), "invalid changes are reported at the argument");
    }
    rt::cover(if ok { "accepted" } else { "rejected" });
    std::mem::forget(s);
}

const PASS: [(&str, bool); 7] = [("abcdefg1", true), ("abcdef1", false), ("abcdefgh", false), ("12345678", false), ("ñandú12", false), ("ñandúes1", true), ("", false)];

/// Creating an account. Case: the passwords that are typed first.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_signup(case: u32) {
    let mut s = sess();
    s.c.borrow_mut().size = CharsXY::new([30, 80][case as usize % 2], 24);
    // Either everything is answered, or it is interrupted somewhere.
    let whole = rt::choose(2) == 0;
    let mut keys = String::from("me\n");
    // Passwords are asked for until they are good and the same twice.
    let (mut tries, deep) = (0, case / 100);
    let password = loop {
        let (p, good) = PASS[if tries == 0 { case as usize % 100 % 7 } else { rt::pick(&[0, 1, 5]) }];
        keys += p; keys.push('\n');
        if good {
            if tries == 1 + deep || rt::choose(2) == 0 { keys += p; keys.push('\n'); break p; }
            keys += rt::pick(&["other", "ABCDEFG1", ""]); keys.push('\n');
        }
        tries += 1;
        if tries > 1 + deep { keys += "abcdefg1\nabcdefg1\n"; break "abcdefg1"; }
    };
    keys += "a@b\n";
    let promo = match if whole { rt::choose(4) } else { 3 } { 0 => { keys.push('\n'); false } 1 => { keys += "y\n"; true } 2 => { keys += "what\nno\n"; false } _ => { keys += "True\n"; true } };
    let go = match if whole { rt::choose(4) } else { 2 } { 0 => { keys.push('\n'); false } 1 => { keys += "YES\n"; true } 2 => { keys += "?\ny\n"; true } _ => { keys += "n\n"; false } };
    let refuse = go && rt::choose(2) == 1;
    s.srv.borrow_mut().refuse = refuse;
    let total = keys.chars().filter(|c| *c == '\n').count();
    let stop = if whole { total } else { rt::choose(total) };
    if stop < total {
        let mut n = 0;
        let mut cut = String::new();
        for c in keys.chars() { if c == '\n' { if n == stop { cut.push('\u{3}'); break; } n += 1; } cut.push(c); }
        keys = cut;
    }
    s.keys(&keys);
    let o = s.run("SIGNUP");
    let want = format!("SignupRequest {{ username: \"me\", password: \"{}\", email: \"a@b\", promotional_email: {} }}", password, promo);
    let send = stop == total && go;
    rt::check(s.calls() == if send { vec![want] } else { vec![] }, "exactly the account that was confirmed is created");
    rt::check(matches!(o, Outcome::Eof) == (stop == total && !(send && refuse)), "interruptions and refusals are reported");
    rt::check(s.c.borrow().keys.is_empty(), "everything is asked for once");
    let t = s.text();
    rt::check(!t.contains(password) && !t.contains("ABCDEFG1"), "passwords are not shown");
    if stop == total { rt::check(t.contains("\nUsername: me\n") && t.contains("\nEmail address: a@b\n") && t.contains(if promo { "\nPromotional email: yes\n" } else { "\nPromotional email: no\n" }), "the answers are shown before they are sent"); }
    let flat = t.split_whitespace().collect::<Vec<_>>().join(" ");
    rt::check(flat.contains("has been created") == (send && !refuse), "the result is reported");
    rt::cover(if send { "sent" } else { "dropped" });
    std::mem::forget(s);
}

/// Messages of the service at login. Case: the width of the screen.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_motd(case: u32) {
    let mut s = sess();
    let motd = rt::choose(2);
    s.srv.borrow_mut().motd = motd;
    s.c.borrow_mut().size = CharsXY::new([10, 49, 50, 80][case as usize], 24);
    rt::check(matches!(s.run("LOGIN \"u1\", \"pw\""), Outcome::Eof), "login");
    let want = if motd == 1 && case >= 2 { "\n----- BEGIN SERVER MOTD -----\nhello all\n\n-----  END SERVER MOTD  -----\n\n" } else { "" };
    rt::check(s.text() == want, "messages are shown where they fit");
    rt::cover("shown");
    let _ = (V::Missing, Ev::Hide);
    std::mem::forget(s);
}

rt::harness_main!(h_session, h_acl, h_share, h_signup, h_motd);
