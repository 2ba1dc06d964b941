//! The client of the cloud service, on top of an HTTP library that remembers the requests and gives
//! any answer.
use endbasic_client::{CloudService, Service};
use endbasic_repl::editor::Editor;
use endbasic_std::console::*;
use endbasic_std::program::Program;
use endbasic_std::storage::{FileAcls, Storage};
use reqwest::{net, Answer, Request};
use rt::lang::{self, Outcome};
use rt::stdm;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

const BASES: [(&str, &str); 3] = [("https://service.endbasic.dev/", "https://service.endbasic.dev"), ("http://localhost:8080", "http://localhost:8080"), ("https://Example.COM", "https://example.com")];
fn base64(b: &[u8]) -> Vec<u8> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 { o.push(if k <= c.len() { T[(n >> (18 - 6 * k) & 63) as usize] } else { b'=' }); }
    }
    o
}
fn unescape(s: &str) -> Vec<u8> {
    let (b, mut o, mut k) = (s.as_bytes(), vec![], 0);
    let hex = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(16)).map(|c| c as u8);
    while k < b.len() {
        match (b[k], hex(k + 1), hex(k + 2)) { (b'%', Some(h), Some(l)) => { o.push(h << 4 | l); k += 3; } (c, _, _) => { o.push(c); k += 1; } }
    }
    o
}
/// Whether the request is for the path made of these names and nothing else.
fn goes_to(r: &Request, base: &str, path: &[&str]) -> bool {
    let u = r.url.as_str();
    let Some(rest) = u.strip_prefix(base) else { return false };
    if rest.contains(['?', '#']) || !rest.starts_with('/') { return false; }
    let got: Vec<Vec<u8>> = rest[1..].split('/').map(unescape).collect();
    got.len() == path.len() && got.iter().zip(path).all(|(g, p)| g == p.as_bytes())
}
/// Whether the request has exactly these headers and those that all have.
fn has(r: &Request, want: &[(&str, &str)]) -> bool {
    let v: Vec<_> = r.headers.get_all("x-endbasic-client-version").iter().collect();
    let mut ok = v.len() == 1 && v[0].as_bytes().split(|b| *b == b'.').count() == 3;
    ok &= r.headers.len() == want.len() + 1;
    for (k, _) in want {
        let w: Vec<&[u8]> = want.iter().filter(|e| e.0 == *k).map(|e| e.1.as_bytes()).collect();
        ok &= r.headers.get_all(*k).iter().map(|v| v.as_bytes()).eq(w);
    }
    ok
}
const NAMES: [&str; 16] = ["f.bas", "", ".", "..", "a/b", "50%41", "a?b=c", "a#b", "A b+&", "\u{e9}\u{4e2d}", "%2e%2e", "a\\..\\b", "a\tb\n", "...", ".x", "x."];
fn proper(n: &str) -> bool { !matches!(n, "" | "." | "..") }

/// What may be answered.
struct Reply { a: Answer, ok: bool, kind: io::ErrorKind, text: &'static str, server: bool }
fn reply(good: &[u8]) -> Reply {
    use io::ErrorKind::*;
    const CODES: [(u16, io::ErrorKind, &str); 17] = [(200, Other, ""), (201, Other, "201 Created"), (400, InvalidInput, "400 Bad Request"), (401, PermissionDenied, "401 Unauthorized"), (403, PermissionDenied, "403 Forbidden"), (404, NotFound, "404 Not Found"), (413, InvalidInput, "413 Payload Too Large"), (500, Other, "500 Internal Server Error"), (503, AddrNotAvailable, "503 Service Unavailable"), (507, Other, "507 Insufficient Storage"), (204, Other, "204 No Content"), (202, Other, "202 Accepted"), (302, Other, "302 Found"), (409, Other, "409 Conflict"), (429, Other, "429 Too Many Requests"), (502, Other, "502 Bad Gateway"), (999, Other, "999")];
    let k = rt::choose(CODES.len() + 2);
    if k == CODES.len() { return Reply { a: Answer { unreachable: true, ..Default::default() }, ok: false, kind: Other, text: "error sending request", server: false }; }
    if k == CODES.len() + 1 { return Reply { a: Answer { status: 500, cut: true, ..Default::default() }, ok: false, kind: Other, text: "500", server: true }; }
    let (status, kind, name) = CODES[k];
    let (body, text): (&[u8], &str) = if status == 200 { (good, "") } else if status == 201 { (b"", "") } else { [(&b"{\"message\":\"no \\u0007 way\"}"[..], "no   way (server code: "), (b"plain\x1b[0m\ntext", "with text 'plain [0m text'"), (b"", "with text ''"), (b"\xff", "with text '\u{fffd}'")][rt::choose(4)] };
    rt::log(name);
    Reply { a: Answer { status, body: body.to_vec(), ..Default::default() }, ok: status == 200, kind, text, server: true }
}
fn failed(e: &io::Error, r: &Reply, name_too: bool) {
    let m = e.to_string();
    rt::log(&m);
    rt::check(e.kind() == r.kind, "failures tell what kind they are");
    rt::check(m.contains(r.text), "failures tell what the service said");
    rt::check(!name_too || m.contains(&r.a.status.to_string()), "failures tell the code of the service");
    rt::check(!m.chars().any(|c| c.is_control()), "what the service says cannot control the terminal");
}

/// Sequences of requests. Case: the last request and whether there is a session.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_requests(case: u32) {
    let (op, logged) = (case % 8, case / 8 % 2 == 1);
    let (address, base) = BASES[if op == 0 { rt::choose(3) } else { 0 }];
    let mut s = CloudService::new(address).unwrap();
    net().log.clear();
    let mut session: Option<(String, String)> = None;
    if logged {
        net().answers.push_back(Answer { status: 200, body: b"{\"access_token\":\"tok-1\",\"motd\":[]}".to_vec(), ..Default::default() });
        rt::check(rt::block_on(s.login("me", "pw")).is_ok(), "logs in");
        session = Some(("me".into(), "tok-1".into()));
        net().log.clear();
    }
    let strange = rt::choose(3);
    let user = if strange == 1 { rt::pick(&NAMES) } else { "me" };
    let file = if strange == 2 { rt::pick(&NAMES[..]) } else { "f.bas" };
    let content = rt::bytes(3);
    let good: Vec<u8> = match op { 0 => b"{\"access_token\":\"tok-2\",\"motd\":[\"hi\"]}".to_vec(), 2 => b"{\"files\":[],\"disk_quota\":null}".to_vec(), 3 => content.clone(), _ => vec![] };
    // The answers matter where the names do not.
    let mut r = if strange > 0 { Reply { a: Answer { status: 200, body: good, ..Default::default() }, ok: true, kind: io::ErrorKind::Other, text: "", server: true } } else { reply(&good) };
    let mut bad_data = false;
    if strange == 0 && r.ok && matches!(op, 0 | 2) {
        let k = rt::choose(6);
        if k > 0 { bad_data = true; r.a.body = [&b""[..], b"{}", b"[1,2]", b"{\"access_token\":5,\"motd\":[],\"files\":5}", b"\xff\xfe"][k - 1].to_vec(); }
    }
    if r.a.status == 201 && matches!(op, 5 | 6) { r.ok = true; }
    const READERS: [&[&[u8]]; 4] = [&[], &[b"u1"], &[b"u2", b"u1", b"public"], &[b"u1", b"\xff"]];
    let readers = READERS[if op == 4 && r.ok { rt::choose(4) } else { 0 }];
    for v in readers { r.a.headers.push(("X-EndBASIC-Reader".into(), v.to_vec())); }
    if readers.len() == 2 { bad_data = true; }
    let acls = |l: &[&str]| FileAcls::default().with_readers(l.iter().map(|s| s.to_string()).collect::<Vec<String>>());
    let (add, remove): (&[&str], &[&str]) = if op == 6 { [(&["u1"][..], &[][..]), (&[], &["u2"]), (&["u1", "public"], &["u2", "U1"]), (&[], &[]), (&["a\nb"], &[]), (&[], &["x\0"]), (&["u1", "u1"], &["\u{e9}"])][rt::choose(7)] } else { (&[], &[]) };
    let unsendable = add.iter().chain(remove).any(|n| n.chars().any(|c| c.is_control()));
    net().answers.push_back(r.a.clone());
    let auth = session.as_ref().map(|(_, t)| format!("Bearer {}", t));
    let mut gone = false;
    let (result, method, path, mut headers, body): (io::Result<()>, &str, Vec<&str>, Vec<(&str, &str)>, Option<Vec<u8>>) = match op {
        0 => {
            // Names with a colon could not be told from the password.
            let pass = ["", "p:w", "\u{e9} x"][rt::choose(3)];
            let user = if strange == 2 { ["a:b", "", ":"][rt::choose(3)] } else { user };
            let x = rt::block_on(s.login(user, pass));
            let ok = x.is_ok();
            if user.contains(':') { rt::check(!ok && net().log.is_empty(), "names that cannot be sent are rejected"); rt::check(s.logged_in_username() == session.as_ref().map(|x| x.0.clone()), "the session is the last that was opened"); rt::cover("rejected"); return; }
            let expected = format!("Basic {}", String::from_utf8(base64(format!("{}:{}", user, pass).as_bytes())).unwrap());
            let h = net().log.last().map(|q| q.headers.get_all("Authorization").iter().map(|v| v.as_bytes()).eq([expected.as_bytes()]));
            rt::check(h == Some(true), "the password is sent as it was given");
            if let Some(q) = net().log.last_mut() { q.headers.remove("Authorization"); }
            if ok { session = Some((user.to_owned(), "tok-2".to_owned())); }
            (x.map(|_| ()), "POST", vec!["api", "login"], vec![("Content-Length", "0")], None)
        }
        1 => { let x = rt::block_on(s.logout()); let u = "me"; if x.is_ok() { session = None; } gone = auth.is_none(); (x, "POST", vec!["api", "users", u, "logout"], vec![("Content-Length", "0")], None) }
        2 => (rt::block_on(s.get_files(user)).map(|_| ()), "GET", vec!["api", "users", user, "files"], vec![], None),
        3 => {
            let x = rt::block_on(s.get_file(user, file));
            if let Ok(v) = &x { let mut same = v.len() == content.len(); if same { for k in 0..3 { same &= v[k] == content[k]; } } rt::check(same || r.a.status != 200, "files are what the service sent"); }
            (x.map(|_| ()), "GET", vec!["api", "users", user, "files", file], vec![], None)
        }
        4 => {
            let x = rt::block_on(s.get_file_acls(user, file));
            if let Ok(v) = &x { rt::check(v.readers().iter().map(|s| s.as_bytes()).eq(readers.iter().copied()), "the readers are those the service sent"); }
            (x.map(|_| ()), "GET", vec!["api", "users", user, "files", file], vec![("X-EndBASIC-GetContent", "false"), ("X-EndBASIC-GetReaders", "true")], None)
        }
        5 => { gone = auth.is_none(); (rt::block_on(s.patch_file_content(user, file, content.clone())), "PATCH", vec!["api", "users", user, "files", file], vec![("Content-Type", "application/octet-stream"), ("X-EndBASIC-PatchContent", "true")], Some(content.clone())) }
        6 => {
            gone = auth.is_none();
            let mut h = vec![("Content-Type", "application/octet-stream"), ("X-EndBASIC-PatchContent", "false")];
            for a in add { h.push(("X-EndBASIC-AddReader", a)); }
            for a in remove { h.push(("X-EndBASIC-RemoveReader", a)); }
            (rt::block_on(s.patch_file_acls(user, file, &acls(add), &acls(remove))), "PATCH", vec!["api", "users", user, "files", file], h, None)
        }
        _ => { gone = auth.is_none(); (rt::block_on(s.delete_file(user, file)), "DELETE", vec!["api", "users", user, "files", file], vec![("Content-Length", "0")], None) }
    };
    if let Some(a) = &auth { if op > 0 { headers.push(("Authorization", a)); } }
    // The session only changes when the service agreed.
    rt::check(s.is_logged_in() == session.is_some() && s.logged_in_username() == session.as_ref().map(|x| x.0.clone()), "the session is the last that was opened");
    if gone || unsendable || !path.iter().all(|n| proper(n)) {
        rt::check(net().log.is_empty(), "nothing is sent without a session or with wrong names");
        rt::check(result.is_err(), "what is not sent is not done");
        if gone && path.iter().all(|n| proper(n)) && !unsendable { rt::check(result.unwrap_err().kind() == io::ErrorKind::PermissionDenied, "a session is needed"); }
        rt::cover("rejected");
        return;
    }
    rt::check(net().log.len() == 1, "every request is sent once");
    let q = &net().log[0];
    rt::log(q.url.as_str());
    rt::check(q.method.as_str() == method, "requests do what was asked for");
    rt::check(goes_to(q, base, &path), "requests name exactly the user and the file");
    let multi = op == 6;
    rt::check(has(q, &headers) || multi && headers.iter().all(|(k, _)| q.headers.get_all(*k).iter().map(|v| v.as_bytes()).eq(headers.iter().filter(|e| e.0 == *k).map(|e| e.1.as_bytes()))) && q.headers.len() == headers.len() + 1, "requests carry exactly what they need");
    match (&q.body, &body) {
        (Some(a), Some(b)) => { let mut same = a.len() == b.len(); if same { for k in 0..a.len() { same &= a[k] == b[k]; } } rt::check(same, "contents are sent as they are"); }
        (a, b) => rt::check(a.as_ref().is_none_or(|v| v.is_empty()) && b.is_none(), "contents are sent as they are"),
    }
    match &result {
        Ok(()) => { rt::check(r.ok && !bad_data, "requests succeed only if the service says so"); rt::cover("accepted"); }
        Err(e) => {
            rt::check(!r.ok || bad_data, "requests succeed if the service says so");
            if !bad_data { failed(e, &r, r.server); }
            rt::cover("refused");
        }
    }
    // What follows uses the session as it is.
    net().log.clear();
    net().answers.clear();
    net().answers.push_back(Answer { status: 200, body: b"{\"files\":[]}".to_vec(), ..Default::default() });
    rt::check(rt::block_on(s.get_files("other")).is_ok(), "what follows works");
    let a = session.as_ref().map(|(_, t)| format!("Bearer {}", t));
    let h: Vec<(&str, &str)> = a.iter().map(|a| ("Authorization", a.as_str())).collect();
    rt::check(net().log.len() == 1 && has(&net().log[0], &h) && goes_to(&net().log[0], base, &["api", "users", "other", "files"]), "what follows uses the session");
}

/// Names and passwords with any character. Case: where it is.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_names(case: u32) {
    let mut s = CloudService::new("https://h/").unwrap();
    net().log.clear();
    net().answers.push_back(Answer { status: 200, body: b"{\"access_token\":\"t\",\"motd\":[]}".to_vec(), ..Default::default() });
    let c = rt::u8_();
    rt::assume(c < 128);
    let plain = [b'a', b'z'];
    let n = case / 4;
    let mut v = vec![];
    for k in 0..3 { if k == n { v.push(c) } else { v.push(plain[k as usize % 2]); } }
    if n == 3 { v = vec![c]; }
    if case % 4 == 3 {
        // Passwords are encoded.
        let pass = String::from_utf8(v.clone()).unwrap();
        rt::check(rt::block_on(s.login("me", &pass)).is_ok(), "completes");
        let mut plain = b"me:".to_vec();
        plain.extend(&v);
        let want = base64(&plain);
        let got = net().log[0].headers.get("authorization").unwrap().as_bytes();
        let mut same = got.len() == want.len() + 6 && got.starts_with(b"Basic ");
        if same { for k in 0..want.len() { same &= got[6 + k] == want[k]; } }
        rt::check(same, "the password is sent as it was given");
        rt::cover("sent");
        return;
    }
    rt::block_on(s.login("me", "x")).ok();
    net().log.clear();
    let v: Vec<u8> = v.iter().map(|b| rt::conc(*b as u64) as u8).collect();
    let name = std::str::from_utf8(&v).unwrap();
    net().answers.push_back(Answer { status: 200, body: vec![], ..Default::default() });
    let (r, path) = match case % 4 {
        0 => (rt::block_on(s.delete_file("me", name)), vec!["api", "users", "me", "files", name]),
        1 => (rt::block_on(s.get_file(name, "f")).map(|_| ()), vec!["api", "users", name, "files", "f"]),
        _ => (rt::block_on(s.patch_file_content("me", name, vec![])), vec!["api", "users", "me", "files", name]),
    };
    if proper(name) {
        rt::check(r.is_ok() && net().log.len() == 1, "every request is sent once");
        rt::log(net().log[0].url.as_str());
        rt::check(goes_to(&net().log[0], "https://h", &path), "requests name exactly the user and the file");
        rt::cover("sent");
    } else { rt::check(r.is_err() && net().log.is_empty(), "nothing is sent without a session or with wrong names"); }
}

/// The commands on top: what is shown and what is asked. Case: the command.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_commands(case: u32) {
    let w = lang::world();
    let (mut b, c, _, _, _) = stdm::builder(&w);
    c.borrow_mut().interactive = true;
    let program = Rc::new(RefCell::new(Editor::default()));
    let storage = Rc::new(RefCell::new(Storage::default()));
    let srv = Rc::new(RefCell::new(CloudService::new("https://h").unwrap()));
    endbasic_client::add_all(&mut b, srv.clone(), c.clone(), storage.clone(), "https://x/");
    let mut m = b.make_interactive().with_program(program.clone()).with_storage(storage.clone()).build();
    let mut run = |src: &str| -> Outcome {
        rt::log(src);
        c.borrow_mut().log.clear();
        net().log.clear();
        if let Err(e) = m.compile(&mut src.as_bytes()) { return stdm::outcome(Err(e)); }
        stdm::outcome(rt::block_on(m.exec()))
    };
    let answer = |status: u16, body: &str| net().answers.push_back(Answer { status, body: body.as_bytes().to_vec(), ..Default::default() });
    answer(200, "{\"access_token\":\"t\",\"motd\":[\"Welcome back\",\"second\"],\"more\":1}");
    rt::check(run("LOGIN \"me\", \"pw\"").ok(), "logs in");
    let text = c.borrow().text();
    rt::check(text.contains("Welcome back") && text.contains("second"), "the messages of the service are shown");
    match case {
        0 => {
            let (n, l) = (rt::pick(&["a.bas", "b c.bas", "\u{e9}.bas"]), rt::pick(&[0u64, 15, 4000000000, u64::MAX]));
            let t = rt::pick(&[(0u64, Some("1970-01-01 00:00")), (1588757875, Some("2020-05-06 09:37")), (253402300799, Some("9999-12-31 23:59")), (253402300800, None), (i64::MAX as u64, None)]);
            let quota = rt::pick(&["null", "{\"bytes\":100000,\"files\":50}"]);
            answer(200, &format!("{{\"files\":[{{\"filename\":\"z.bas\",\"mtime\":0,\"length\":1}},{{\"filename\":\"{}\",\"mtime\":{},\"length\":{}}}],\"disk_quota\":{},\"disk_free\":null}}", n, t.0, l, quota));
            if l == u64::MAX { rt::assume(false); }
            let o = run("DIR \"CLOUD:\"");
            rt::check(o.ok() == t.1.is_some(), "dates that do not exist are reported");
            let text = c.borrow().text();
            rt::log(&text);
            if let Some(d) = t.1 {
                let line = text.lines().find(|x| x.contains(n)).unwrap_or("");
                rt::check(line.contains(d) && line.split_whitespace().any(|x| x == l.to_string()), "files are listed as the service says");
                rt::check(text.contains("z.bas"), "files are listed as the service says");
            }
            rt::check(net().log.len() == 1 && goes_to(&net().log[0], "https://h", &["api", "users", "me", "files"]), "the drive is the one of the user");
        }
        1 => {
            // Creating an account.
            let promo = rt::pick(&[("\n", false), ("y\n", true), ("n\n", false), ("maybe\ntrue\n", true)]);
            let (user, pass, mail) = rt::pick(&[("u\"\\1", "passw0rd", "a@b"), ("\u{e9}t\u{e9}", "1234567\u{e9}", ""), ("", "a1\"\\/<>x", "x y")]);
            let go = rt::pick(&["y\n", "n\n", "\n"]);
            for ch in format!("{}\n{}\n{}\n{}\n{}{}", user, pass, pass, mail, promo.0, go).chars() { c.borrow_mut().keys.push_back(if ch == '\n' { Key::NewLine } else { Key::Char(ch) }); }
            answer(200, "");
            let o = run("SIGNUP");
            rt::log(o.msg());
            let text = c.borrow().text();
            rt::check(!text.contains(pass), "passwords are never shown");
            if go == "y\n" {
                rt::check(o.ok() && net().log.len() == 1, "every request is sent once");
                let q = &net().log[0];
                rt::check(q.method.as_str() == "POST" && goes_to(q, "https://h", &["api", "signup"]) && has(q, &[("Content-Type", "application/json")]), "requests do what was asked for");
                let v: serde_json::Value = serde_json::from_slice(q.body.as_ref().unwrap()).unwrap();
                rt::check(v == serde_json::json!({"username": user, "password": pass, "email": mail, "promotional_email": promo.1}), "an account is asked for with the data that was given");
                rt::cover("sent");
            } else { rt::check(net().log.is_empty(), "nothing is sent without confirmation"); }
        }
        2 => {
            // A program goes there and back.
            let b = rt::bytes(2);
            rt::assume((b[0] >= 32) & (b[0] < 127) & (b[1] >= 32) & (b[1] < 127));
            let text = format!("' {}\n", String::from_utf8(b).unwrap());
            program.borrow_mut().load(None, &text);
            answer(201, "");
            rt::check(run("SAVE \"CLOUD:/x\"").ok(), "saves");
            let q = net().log.pop().unwrap();
            rt::check(goes_to(&q, "https://h", &["api", "users", "me", "files", "x.bas"]), "the drive is the one of the user");
            let sent = q.body.unwrap();
            let mut same = sent.len() == text.len();
            if same { for (a, b) in sent.iter().zip(text.as_bytes()) { same &= a == b; } }
            rt::check(same, "contents are sent as they are");
            rt::check(run("NEW").ok(), "starts over");
            net().answers.push_back(Answer { status: 200, body: sent, ..Default::default() });
            rt::check(run("LOAD \"CLOUD:/x\"").ok(), "loads");
            let got = program.borrow().text();
            let mut same = got.len() == text.len();
            if same { for (a, b) in got.bytes().zip(text.bytes()) { same &= a == b; } }
            rt::check(same, "files are what the service sent");
            rt::cover("sent");
        }
        _ => {
            // Sharing.
            let k = rt::choose(4);
            let src = ["SHARE \"CLOUD:f.bas\"", "SHARE \"CLOUD:f.bas\", \"bob+r\", \"eve-R\", \"Public+r\"", "SHARE \"CLOUD:f.bas\", \"bob+x\"", "SHARE \"CLOUD:f.bas\", \"+r\""][k];
            let refuse = rt::choose(2) == 1;
            if refuse { answer(403, "{\"message\":\"not yours\"}"); } else { net().answers.push_back(Answer { status: if k == 1 { 201 } else { 200 }, headers: vec![("x-endbasic-reader".into(), b"bob".to_vec()), ("X-EndBASIC-Reader".into(), b"public".to_vec())], ..Default::default() }); }
            let o = run(src);
            rt::log(o.msg());
            let text = c.borrow().text();
            rt::check(o.ok() == (k < 2 && !refuse), "requests succeed if the service says so");
            if k >= 2 { rt::check(net().log.is_empty(), "nothing is sent without a session or with wrong names"); return; }
            let q = &net().log[0];
            if refuse { rt::check(o.msg().contains("not yours (server code: 403 Forbidden)"), "failures tell what the service said"); return; }
            if k == 0 { rt::check(text.contains("    bob\n") && text.contains("    public\n"), "the readers are those the service sent"); }
            else {
                let all = |n: &str| q.headers.get_all(n).iter().map(|v| v.to_str().unwrap().to_owned()).collect::<Vec<String>>();
                rt::check(all("X-EndBASIC-AddReader") == ["bob", "Public"] && all("X-EndBASIC-RemoveReader") == ["eve"], "requests carry exactly what they need");
                rt::check(text.contains("https://x/?run=me/f.bas"), "the address of a public file is shown");
            }
            rt::cover("sent");
        }
    }
}

/// Addresses of services.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_address(_case: u32) {
    let (a, ok) = rt::pick(&[("https://h/", true), ("http://h:1", true), ("h", false), ("", false), ("https://h/api", false), ("https://h//", false), ("https://h:99999/", false), ("https:///", false)]);
    let s = CloudService::new(a);
    rt::check(s.is_ok() == ok, "only addresses of services are accepted");
    if let Err(e) = s { rt::check(e.kind() == io::ErrorKind::InvalidInput, "wrong addresses are reported"); }
    rt::cover("read");
}

rt::harness_main!(h_requests, h_names, h_commands, h_address);
