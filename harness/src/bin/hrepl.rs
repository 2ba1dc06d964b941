//! The editor, the stored program, files and the interactive loop.
use endbasic_repl::editor::Editor;
use endbasic_std::console::*;
use endbasic_std::program::Program;
use endbasic_std::storage::{Drive, DriveFactory, DriveFiles, FileAcls, InMemoryDrive, Storage};
use rt::lang::Outcome;
use rt::stdm::{self, Cons, Ev};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io;
use std::rc::Rc;

// ---------------------------------------------------------------------------- editor

/// What the editor must contain.
struct Ed { lines: Vec<Vec<char>>, l: usize, c: usize, want: usize, dirty: bool, page: usize }
impl Ed {
    fn new(text: &str, page: usize) -> Ed {
        let mut lines: Vec<Vec<char>> = text.lines().map(|l| l.chars().collect()).collect();
        if lines.is_empty() { lines.push(vec![]); }
        Ed { lines, l: 0, c: 0, want: 0, dirty: false, page }
    }
    fn blanks(&self) -> usize { self.lines[self.l].iter().take_while(|c| **c == ' ').count() }
    fn to_line(&mut self, l: usize) { self.l = l.min(self.lines.len() - 1); self.c = self.want.min(self.lines[self.l].len()); }
    fn key(&mut self, k: &Key) {
        let len = self.lines[self.l].len();
        match k {
            Key::ArrowUp => self.to_line(self.l.saturating_sub(1)),
            Key::ArrowDown => self.to_line(self.l + 1),
            Key::PageUp => self.to_line(self.l.saturating_sub(self.page)),
            Key::PageDown => self.to_line(self.l + self.page),
            Key::ArrowLeft => if self.c > 0 { self.c -= 1; self.want = self.c; },
            Key::ArrowRight => if self.c < len { self.c += 1; self.want = self.c; },
            Key::Home => { let b = self.blanks(); self.c = if self.c == b { 0 } else { b }; self.want = self.c; }
            Key::End => { self.c = len; self.want = len; }
            Key::Char(ch) => { self.lines[self.l].insert(self.c, *ch); self.c += 1; self.want = self.c; self.dirty = true; }
            Key::Tab => { loop { self.lines[self.l].insert(self.c, ' '); self.c += 1; if self.c % 4 == 0 { break; } } self.want = self.c; self.dirty = true; }
            Key::NewLine | Key::CarriageReturn => {
                let indent: Vec<char> = self.lines[self.l].iter().copied().take_while(|c| c.is_whitespace()).collect();
                let n = indent.len();
                let rest = self.lines[self.l].split_off(self.c);
                self.lines.insert(self.l + 1, [indent, rest].concat());
                self.l += 1; self.c = n; self.want = n; self.dirty = true;
            }
            Key::Backspace => {
                if self.c > 0 {
                    // Inside of the indentation, to the previous stop.
                    let all = self.blanks() >= self.c;
                    loop { self.c -= 1; self.lines[self.l].remove(self.c); if !all || self.c % 4 == 0 { break; } }
                    self.dirty = true;
                } else if self.l > 0 {
                    let x = self.lines.remove(self.l);
                    self.l -= 1;
                    self.c = self.lines[self.l].len();
                    self.lines[self.l].extend(x);
                    self.dirty = true;
                }
                self.want = self.c;
            }
            Key::Delete | Key::EofOrDelete => {
                if self.c < len { self.lines[self.l].remove(self.c); self.dirty = true; }
                else if self.l + 1 < self.lines.len() { let x = self.lines.remove(self.l + 1); self.lines[self.l].extend(x); self.dirty = true; }
            }
            _ => (),
        }
    }
}

/// A text screen, and somebody in front of it who knows what it must show.
struct Grid { w: usize, h: usize, cells: Vec<char>, x: usize, y: usize, visible: bool, alt: bool, sync: bool, color: (Option<u8>, Option<u8>), todo: VecDeque<Key>, free: usize, all: usize, name: char, ed: Rc<RefCell<Ed>> }
impl Grid {
    fn newline(&mut self) {
        self.x = 0;
        if self.y + 1 < self.h { self.y += 1; return; }
        self.cells.drain(0..self.w);
        self.cells.resize(self.w * self.h, ' ');
    }
    fn text(&mut self, s: &str) {
        for c in s.chars() {
            if self.x == self.w { self.newline(); }
            self.cells[self.y * self.w + self.x] = c;
            self.x += 1;
        }
    }
    fn blank(&mut self, a: usize, b: usize) { for k in a..b { self.cells[self.y * self.w + k] = ' '; } }
    fn look(&self) {
        let ed = self.ed.borrow();
        rt::check(self.alt & self.visible, "the editor has its own screen with a cursor");
        rt::check(self.x < self.w && self.y + 1 < self.h, "the cursor is above the status line");
        if self.x > ed.c || self.y > ed.l { rt::fail("the cursor is where text is inserted"); }
        let (vl, vc) = (ed.l - self.y, ed.c - self.x);
        for y in 0..self.h - 1 {
            for x in 0..self.w {
                let want = ed.lines.get(vl + y).and_then(|l| l.get(vc + x)).copied().unwrap_or(' ');
                let (cell, blank) = (self.cells[y * self.w + x], |c: char| (c == ' ') | (c == '\u{a0}'));
                rt::check((cell == want) | (blank(cell) & blank(want)), "the screen shows the text around the cursor");
            }
        }
        let status: String = self.cells[(self.h - 1) * self.w..].iter().collect();
        let (s, at) = (status.trim(), format!("{}:{}", ed.l + 1, ed.c + 1));
        if self.w < 30 { rt::check(s == at, "the status line shows the position"); }
        else { rt::check(s == format!("ESC Exit{} | {}{} | Ln {}, Col {}", &" ".repeat(50)[..s.find('|').unwrap_or(9).clamp(9, 50) - 9], self.name, if ed.dirty { "*" } else { "" }, ed.l + 1, ed.c + 1), "the status line shows the name, changes and the position"); }
    }
}
fn any_key(first: bool) -> Key {
    match rt::choose(16) {
        0 => Key::ArrowUp, 1 => Key::ArrowDown, 2 => Key::ArrowLeft, 3 => Key::ArrowRight, 4 => Key::Home, 5 => Key::End, 6 => Key::PageUp, 7 => Key::PageDown,
        8 => Key::Backspace, 9 => Key::Delete, 10 => Key::NewLine, 11 => Key::Tab, 12 => Key::Char(' '), 13 => Key::Char('é'), 14 => Key::Char('\u{a0}'),
        _ if !first => Key::Char('q'),
        _ => { let b = rt::u8_(); rt::assume((b > b' ') & (b <= b'~')); Key::Char(b as char) }
    }
}
#[async_trait::async_trait(?Send)]
impl Console for Grid {
    fn clear(&mut self, how: ClearType) -> io::Result<()> {
        match how {
            ClearType::All => { self.cells.fill(' '); self.x = 0; self.y = 0; }
            ClearType::CurrentLine => { self.blank(0, self.w); self.x = 0; }
            ClearType::PreviousChar => if self.x > 0 { self.x -= 1; self.blank(self.x, self.x + 1); },
            ClearType::UntilNewLine => self.blank(self.x, self.w),
        }
        Ok(())
    }
    fn color(&self) -> (Option<u8>, Option<u8>) { self.color }
    fn set_color(&mut self, f: Option<u8>, b: Option<u8>) -> io::Result<()> { self.color = (f, b); Ok(()) }
    fn enter_alt(&mut self) -> io::Result<()> { rt::check(!self.alt, "screens do not nest"); self.alt = true; Ok(()) }
    fn leave_alt(&mut self) -> io::Result<()> { rt::check(self.alt, "screens do not nest"); self.alt = false; Ok(()) }
    fn hide_cursor(&mut self) -> io::Result<()> { self.visible = false; Ok(()) }
    fn show_cursor(&mut self) -> io::Result<()> { self.visible = true; Ok(()) }
    fn is_interactive(&self) -> bool { true }
    fn locate(&mut self, p: CharsXY) -> io::Result<()> { self.x = p.x as usize; self.y = p.y as usize; rt::check(self.x < self.w && self.y < self.h, "the cursor stays on the screen"); Ok(()) }
    fn move_within_line(&mut self, d: i16) -> io::Result<()> { self.x = (self.x as i32 + d as i32) as usize; Ok(()) }
    fn print(&mut self, t: &str) -> io::Result<()> { self.text(t); self.newline(); Ok(()) }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> { Ok(None) }
    async fn read_key(&mut self) -> io::Result<Key> {
        self.look();
        let k = match self.todo.pop_front() { Some(k) => k, None if self.free > 0 => { self.free -= 1; any_key(self.free == self.all - 1) } None => Key::Escape };
        self.ed.borrow_mut().key(&k);
        Ok(k)
    }
    fn size_chars(&self) -> io::Result<CharsXY> { Ok(CharsXY::new(self.w as u16, self.h as u16)) }
    fn write(&mut self, t: &str) -> io::Result<()> { self.text(t); Ok(()) }
    fn sync_now(&mut self) -> io::Result<()> { Ok(()) }
    fn set_sync(&mut self, e: bool) -> io::Result<bool> { Ok(std::mem::replace(&mut self.sync, e)) }
}

const TEXTS: [&str; 5] = ["", "ab\n  cdéfg\n\nabcdefghijkl\n     x\n", "        ab\n\u{a0} x\r\nlast", "1\n2\n3\n4\n5\n6\n7\n8\n9", "        "];
/// The way to the place where editing starts.
fn way(k: usize) -> Vec<Key> {
    match k {
        0 => vec![],
        1 => vec![Key::End],
        2 => vec![Key::ArrowDown, Key::End],
        3 => vec![Key::PageDown, Key::PageDown],
        4 => vec![Key::ArrowDown, Key::ArrowRight, Key::NewLine],
        5 => vec![Key::PageDown, Key::End],
        6 => vec![Key::End, Key::ArrowLeft, Key::ArrowLeft, Key::ArrowLeft, Key::Tab],
        _ => vec![Key::Char('x'), Key::NewLine, Key::Tab],
    }
}

/// Keys in the editor. Case: the screen, the text and where editing starts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_editor(case: u32) {
    let (deep, case) = (case / 1000, case as usize % 1000);
    let (w, h) = [(6, 4), (36, 3), (9, 2)][case / 40];
    let text = TEXTS[case % 40 / 8];
    let mut e = Editor::default();
    let grid = |todo: Vec<Key>, free: usize, ed: &Rc<RefCell<Ed>>| Grid { w, h, cells: vec!['#'; w * h], x: 0, y: 0, visible: true, alt: false, sync: true, color: (Some(3), None), todo: todo.into(), free, all: free, name: 'N', ed: ed.clone() };
    if case % 2 == 1 {
        // Another program was edited before.
        e.load(Some("O"), "one\n  another long line\nthree\nfour\nfive");
        let ed = Rc::new(RefCell::new(Ed::new("one\n  another long line\nthree\nfour\nfive", h - 2)));
        let keys = [&[Key::ArrowDown, Key::End, Key::Char('!')][..], &[Key::PageDown, Key::PageDown, Key::PageDown, Key::End]][case % 4 / 2].to_vec();
        let mut g = grid(keys, 0, &ed);
        let name = e.name().map(|n| n.to_owned());
        rt::check(name.as_deref() == Some("O"), "programs have the name they were loaded with");
        g.name = 'O';
        rt::check(rt::block_on(e.edit(&mut g)).is_ok(), "editing ends");
    }
    e.load(Some("N"), text);
    let ed = Rc::new(RefCell::new(Ed::new(text, h - 2)));
    let mut way = way(case % 8);
    if case % 8 == 2 || case % 8 == 5 {
        // Editing goes on where it stopped.
        let mut g = grid(std::mem::take(&mut way), 0, &ed);
        rt::check(rt::block_on(e.edit(&mut g)).is_ok(), "editing ends");
    }
    let mut g = grid(way, 3 + deep as usize, &ed);
    rt::check(rt::block_on(e.edit(&mut g)).is_ok(), "editing ends");
    rt::check(!g.alt && g.sync, "the screen is given back");
    let ed = ed.borrow();
    let mut want = String::new();
    for l in &ed.lines { want.extend(l.iter()); want.push('\n'); }
    rt::check(e.text() == want, "the program is what was typed");
    rt::check(e.is_dirty() == ed.dirty && e.name() == Some("N"), "changes are remembered");
    std::mem::forget(e);
    rt::cover("edited");
}

// ---------------------------------------------------------------------------- files

/// What a path refers to: the drive, if any, and the file, if any.
fn path_of(s: &str) -> Option<(Option<String>, Option<String>)> {
    let (drive, rest) = match s.split_once(':') { Some((d, r)) => (Some(d), r), None => (None, s) };
    if let Some(d) = drive { if d.is_empty() || d.contains(['/', '\\', '.']) { return None; } }
    if rest.contains([':', '\\']) { return None; }
    let leaf = rest.strip_prefix('/').unwrap_or(rest);
    if leaf.contains('/') || leaf == "." || leaf == ".." { return None; }
    Some((drive.map(|d| d.to_uppercase()), if leaf.is_empty() { None } else { Some(leaf.to_owned()) }))
}

/// The drives and their files.
#[derive(Clone)]
struct Disk { drives: BTreeMap<String, BTreeMap<String, Vec<u8>>>, at: String, readers: BTreeMap<(String, String), BTreeSet<String>> }
impl Disk {
    fn new() -> Disk { Disk { drives: BTreeMap::from([("MEMORY".to_owned(), BTreeMap::new())]), at: "MEMORY".into(), readers: BTreeMap::new() } }
    /// The drive and the file of a path.
    fn find(&self, s: &str) -> Option<(String, Option<String>)> { let (d, f) = path_of(s)?; let d = d.unwrap_or(self.at.clone()); if self.drives.contains_key(&d) { Some((d, f)) } else { None } }
    fn file(&self, s: &str) -> Option<(String, String)> { let (d, f) = self.find(s)?; Some((d, f?)) }
    fn get(&self, s: &str) -> Option<Vec<u8>> { let (d, f) = self.file(s)?; self.drives[&d].get(&f).cloned() }
    fn put(&mut self, s: &str, v: &[u8]) -> Option<()> { let (d, f) = self.file(s)?; self.drives.get_mut(&d)?.insert(f, v.to_vec()); Some(()) }
    fn delete(&mut self, s: &str) -> Option<()> { let (d, f) = self.file(s)?; self.readers.remove(&(d.clone(), f.clone())); self.drives.get_mut(&d)?.remove(&f).map(|_| ()) }
    fn share(&mut self, s: &str, add: &[&str], remove: &[&str]) -> Option<()> {
        let k = self.file(s)?;
        self.drives[&k.0].get(&k.1)?;
        let r = self.readers.entry(k).or_default();
        for x in remove { r.remove(*x); }
        for x in add { r.insert(x.to_string()); }
        Some(())
    }
    fn copy(&mut self, a: &str, b: &str) -> Option<()> {
        let (_, name) = self.file(a)?;
        let v = self.get(a)?;
        let (d, f) = self.find(b)?;
        self.drives.get_mut(&d)?.insert(f.unwrap_or(name), v);
        Some(())
    }
    fn cd(&mut self, s: &str) -> Option<()> { let (d, f) = self.find(s)?; if f.is_some() { return None; } self.at = d; Some(()) }
    fn mount(&mut self, name: &str, uri: &str) -> Option<()> {
        if !uri.eq_ignore_ascii_case("memory://") || name.is_empty() || name.contains([':', '/', '\\', '.']) || self.drives.contains_key(&name.to_uppercase()) { return None; }
        self.drives.insert(name.to_uppercase(), BTreeMap::new());
        Some(())
    }
    fn unmount(&mut self, name: &str) -> Option<()> { let k = name.to_uppercase(); if k == self.at { return None; } self.readers.retain(|f, _| f.0 != k); self.drives.remove(&k).map(|_| ()) }
    fn list(&self, s: &str) -> Option<Vec<(String, u64)>> { let (d, f) = self.find(s)?; if f.is_some() { return None; } Some(self.drives[&d].iter().map(|(n, v)| (n.clone(), v.len() as u64)).collect()) }
    /// Everything is as expected.
    fn same(&self, s: &Storage) {
        rt::check(s.cwd() == format!("{}:/", self.at), "the current drive is the last one that was entered");
        rt::check(s.mounted().keys().map(|k| k.to_string()).collect::<Vec<_>>() == self.drives.keys().cloned().collect::<Vec<_>>(), "drives are those that were mounted");
        for (d, files) in &self.drives {
            let e = rt::block_on(s.enumerate(&format!("{}:", d)));
            rt::check(e.is_ok(), "drives can be listed");
            if let Ok(e) = e { rt::check(e.dirents().iter().map(|(n, m)| (n, m.length)).eq(files.iter().map(|(n, v)| (n, v.len() as u64))), "files are those that were written"); }
            for (f, v) in files { rt::check(rt::block_on(s.get(&format!("{}:/{}", d, f))).ok().as_ref() == Some(v), "files contain what was written");
                let r = rt::block_on(s.get_acls(&format!("{}:{}", d, f))).ok().map(|a| a.readers().iter().cloned().collect::<BTreeSet<_>>());
                rt::check(r == Some(self.readers.get(&(d.clone(), f.clone())).cloned().unwrap_or_default()), "files have the readers that were added");
            }
        }
    }
}

/// Paths of up to four characters. Case: the operation and the first character.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_paths(case: u32) {
    const SET: [&str; 7] = ["a", "B", ":", "/", ".", "\\", "é"];
    let mut s = Storage::default();
    let mut d = Disk::new();
    for (n, u) in [("A", "memory://"), ("bé", "memory://")] { let _ = s.mount(n, u); d.mount(n, u); }
    for (f, v) in [("a", "x"), ("A:B", "yy"), ("B", ""), ("bé:/aB", "zzz")] { let _ = rt::block_on(s.put(f, v.as_bytes())); d.put(f, v.as_bytes()); }
    d.same(&s);
    let mut p = String::new();
    if case % 8 < 7 {
        p += SET[case as usize % 8];
        for _ in 0..if case < 100 { 3 } else { 4 } { let k = rt::choose(8); if k == 7 { break; } p += SET[k]; }
    }
    let ok = match case % 100 / 8 {
        0 => { let r = rt::block_on(s.get(&p)).ok(); let w = d.get(&p); rt::check(r == w, "paths refer to the same files"); w.is_some() }
        1 => { let r = rt::block_on(s.put(&p, b"new")).ok(); let w = d.put(&p, b"new"); rt::check(r == w, "exactly the right paths are accepted"); w.is_some() }
        2 => { let r = rt::block_on(s.delete(&p)).ok(); let w = d.delete(&p); rt::check(r == w, "exactly the right paths are accepted"); w.is_some() }
        3 => { let r = s.cd(&p).ok(); let w = d.cd(&p); rt::check(r == w, "exactly the right paths are accepted"); w.is_some() }
        4 => { let r = rt::block_on(s.enumerate(&p)).ok().map(|e| e.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect::<Vec<_>>()); let w = d.list(&p); rt::check(r == w, "drives list their files"); w.is_some() }
        5 => { let r = rt::block_on(s.copy("A:B", &p)).ok(); let w = d.copy("A:B", &p); rt::check(r == w, "exactly the right paths are accepted"); w.is_some() }
        6 => { let r = rt::block_on(s.copy(&p, "bé:/")).ok(); let w = d.copy(&p, "bé:/"); rt::check(r == w, "exactly the right paths are accepted"); w.is_some() }
        7 => { let r = s.mount(&p, "memory://").ok(); let w = d.mount(&p, "memory://"); rt::check(r == w, "exactly the right drive names are accepted"); w.is_some() }
        8 => { let r = s.unmount(&p).ok(); let w = d.unmount(&p); rt::check(r == w, "exactly the right drive names are accepted"); w.is_some() }
        9 => {
            // Programs have an extension.
            let r = s.make_canonical_with_extension(&p, "bas").ok();
            let w = path_of(&p).and_then(|(d, f)| f.map(|f| (d.unwrap_or("MEMORY".into()), if f.contains('.') { f } else if f.contains('a') { f + ".bas" } else { f + ".BAS" })));
            rt::check(r.is_some() == w.is_some(), "exactly the right names are accepted");
            if let (Some(r), Some(w)) = (&r, &w) { rt::check(path_of(r) == Some((Some(w.0.clone()), Some(w.1.clone()))), "programs get an extension"); }
            w.is_some()
        }
        _ => {
            let r = s.make_canonical(&p).ok();
            let w = path_of(&p);
            rt::check(r.is_some() == w.is_some(), "exactly the right paths are accepted");
            if let (Some(r), Some(w)) = (&r, &w) { rt::check(path_of(r) == Some((Some(w.0.clone().unwrap_or("MEMORY".into())), w.1.clone())), "full paths refer to the same file"); }
            w.is_some()
        }
    };
    d.same(&s);
    std::mem::forget(s);
    rt::cover(if ok { "accepted" } else { "rejected" });
}

/// Paths of any printable characters. Case: their length and whether an extension is wanted.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_names(case: u32) {
    let s = Storage::default();
    let b = rt::bytes(1 + case as usize / 2);
    for c in &b { rt::assume((*c >= b' ') & (*c <= b'~')); }
    let p = String::from_utf8(b).unwrap();
    let r = if case % 2 == 0 { s.make_canonical(&p).ok() } else { s.make_canonical_with_extension(&p, "bas").ok() };
    let mut w = path_of(&p);
    if case % 2 == 1 { w = w.and_then(|(d, f)| f.map(|f| (d, Some(if f.contains('.') { f } else if f.bytes().any(|c| c.is_ascii_lowercase()) { f + ".bas" } else { f + ".BAS" })))); }
    rt::check(r.is_some() == w.is_some(), "exactly the right paths are accepted");
    if let (Some(r), Some((d, f))) = (&r, &w) {
        let d = d.clone().unwrap_or("MEMORY".into());
        rt::check(r.as_bytes().starts_with(d.as_bytes()) && r.as_bytes()[d.len()] == b':', "full paths name the drive");
        let rest = &r[d.len() + 1..];
        rt::check(rest.strip_prefix('/').unwrap_or(rest) == f.as_deref().unwrap_or(""), "full paths name the file");
    }
    std::mem::forget(s);
    rt::cover(if w.is_some() { "accepted" } else { "rejected" });
}

/// Sequences of operations on drives and files.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_drives(case: u32) {
    let (deep, case) = (case / 100, case % 100);
    let mut s = Storage::default();
    let mut d = Disk::new();
    for (f, v) in [("one", "1"), ("two", "22")] { let _ = rt::block_on(s.put(f, v.as_bytes())); d.put(f, v.as_bytes()); }
    for step in 0..3 + deep {
        let op = if step == 0 { case as usize } else { rt::choose(16) };
        let acls = |r: &[&str]| FileAcls::default().with_readers(r.iter().map(|r| r.to_string()).collect::<Vec<_>>());
        let (r, w) = match op {
            0 => (s.mount("x", "memory://").ok(), d.mount("x", "memory://")),
            1 => (s.mount("Y", "Memory://").ok(), d.mount("Y", "Memory://")),
            2 => { let u = rt::pick(&["memory", "://", "memory://z", "none://", ""]); (s.mount("w", u).ok(), None) }
            3 => (s.unmount("X").ok(), d.unmount("X")),
            4 => { let n = rt::pick(&["memory", "Y"]); (s.unmount(n).ok(), d.unmount(n)) }
            5 => (s.cd("X:").ok(), d.cd("X:")),
            6 => { let n = rt::pick(&["memory:/", "y:/", "/", "one", "x:one"]); (s.cd(n).ok(), d.cd(n)) }
            7 => (rt::block_on(s.copy("one", "X:")).ok(), d.copy("one", "X:")),
            8 => (rt::block_on(s.copy("memory:two", "three")).ok(), d.copy("memory:two", "three")),
            9 => (rt::block_on(s.copy("x:/one", "/two")).ok(), d.copy("x:/one", "/two")),
            10 => (rt::block_on(s.put("one", b"new")).ok(), d.put("one", b"new")),
            11 => { let p = rt::pick(&["y:/one", "memory:", "z:one"]); (rt::block_on(s.put(p, b"")).ok(), d.put(p, b"")) }
            12 => (rt::block_on(s.delete("one")).ok(), d.delete("one")),
            14 => { let p = rt::pick(&["one", "x:one", "X:", "none"]); (rt::block_on(s.update_acls(p, &acls(&["a", "b"]), &acls(&["b", "c"]))).ok(), d.share(p, &["a", "b"], &["b", "c"])) }
            15 => (rt::block_on(s.update_acls("memory:/one", &acls(&["c", "c"]), &acls(&["a", "z"]))).ok(), d.share("memory:/one", &["c"], &["a", "z"])),
            _ => { let p = rt::pick(&["x:one", "memory:two", "ONE"]); (rt::block_on(s.delete(p)).ok(), d.delete(p)) }
        };
        rt::check(r == w, "operations fail exactly when they must");
    }
    d.same(&s);
    std::mem::forget(s);
    rt::cover("done");
}

// ---------------------------------------------------------------------------- stored program

struct Repl { m: endbasic_std::Machine, c: Rc<RefCell<Cons>>, program: Rc<RefCell<Editor>>, storage: Rc<RefCell<Storage>>, yielder: Rc<RefCell<stdm::Yield>> }
fn repl() -> Repl {
    let (b, c, _, _, yielder) = stdm::plain();
    let program = Rc::new(RefCell::new(Editor::default()));
    let storage = Rc::new(RefCell::new(Storage::default()));
    let m = b.make_interactive().with_program(program.clone()).with_storage(storage.clone()).build();
    Repl { m, c, program, storage, yielder }
}
impl Repl {
    fn run(&mut self, src: &str) -> Outcome {
        rt::log(src);
        self.c.borrow_mut().log.clear();
        if let Err(e) = self.m.compile(&mut src.as_bytes()) { return stdm::outcome(Err(e)); }
        stdm::outcome(rt::block_on(self.m.exec()))
    }
    fn stop_at(&self, n: i32) { self.yielder.borrow_mut().at.set(n); }
    fn text(&self) -> String { self.c.borrow().text() }
    fn type_keys(&self, s: &str) { for ch in s.chars() { self.c.borrow_mut().keys.push_back(match ch { '\n' => Key::NewLine, '\u{1b}' => Key::Escape, c => Key::Char(c) }); } }
}

/// What the stored program and the machine must be.
struct Mem { name: Option<String>, text: String, dirty: bool, v: Option<i32>, colored: bool, disk: Disk }
impl Mem {
    fn clear(&mut self) { self.v = None; self.colored = false; }
    /// The output of the stored program, or nothing if it is not valid.
    fn exec(&mut self) -> Option<String> {
        self.clear();
        let mut out = String::new();
        for l in self.text.clone().lines() {
            match l {
                "v = 7" => self.v = Some(7),
                "PRINT v" => match self.v { Some(v) => out += &format!(" {}\n", v), None => return None },
                _ if l.len() == 7 && l.starts_with("PRINT ") => out += &format!(" {}\n", &l[6..]),
                _ => rt::check(l.is_empty() || l.starts_with('\''), "known programs only"),
            }
        }
        Some(out)
    }
}

/// Sequences of commands on the stored program. Case: the first one and what comes before.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_program(case: u32) {
    let mut r = repl();
    let mut s = Mem { name: None, text: String::new(), dirty: false, v: None, colored: false, disk: Disk::new() };
    let d = digit();
    let shown = format!("PRINT {}", d as char);
    for (f, v) in [("a.bas", shown.as_bytes()), ("B.BAS", b"v = 7\nPRINT v\n"), ("bad.bas", b"\xff\xfe")] { let _ = rt::block_on(r.storage.borrow_mut().put(f, v)); s.disk.put(f, v); }
    let before: &[usize] = [&[][..], &[1, 9], &[0, 6], &[6]][case as usize % 100 / 15];
    let (deep, case) = (case / 100, case % 100);
    for step in 0..before.len() + 2 + deep as usize + (case < 15) as usize {
        let op = if step < before.len() { before[step] } else if step == before.len() { case as usize % 15 } else { rt::choose(15) };
        // Whether changes may be lost.
        let asks = matches!(op, 0..=2 | 5 | 12) && s.dirty;
        let mut go = true;
        let mut out = String::new();
        if asks {
            let answer = rt::pick(&["y\n", "n\n", "\n", "maybe\n", "YES\n"]);
            go = answer == "y\n" || answer == "YES\n";
            r.type_keys(answer);
            out = match &s.name { Some(n) => format!("Current program {} has unsaved changes!\n", n), None => "Current program has unsaved changes and has never been saved!\n".to_owned() };
        }
        let aborted = |c: &str| format!("{} aborted; use SAVE to save your current changes.\n", c);
        let mut load = |s: &mut Mem, name: &str, out: &mut String| {
            if !go { *out += &aborted("LOAD"); return true; }
            match s.disk.get(name).and_then(|v| String::from_utf8(v).ok()) {
                Some(t) => { s.text = t.lines().map(|l| l.to_owned() + "\n").collect(); s.name = Some(format!("MEMORY:{}", name)); s.dirty = false; s.clear(); true }
                None => false,
            }
        };
        let (got, ok) = match op {
            0 => (r.run("LOAD \"a\""), load(&mut s, "a.bas", &mut out)),
            1 => (r.run("LOAD \"B\""), load(&mut s, "B.BAS", &mut out)),
            2 => (r.run("LOAD \"none\""), load(&mut s, "none.bas", &mut out)),
            12 => (r.run("LOAD \"bad\""), load(&mut s, "bad.bas", &mut out)),
            3 => (r.run("SAVE"), match s.name.clone() { Some(n) => { s.disk.put(&n, s.text.as_bytes()); s.dirty = false; out += &format!("Saved as {}\n", n); true } None => false }),
            4 => (r.run("SAVE \"c\""), { s.disk.put("c.bas", s.text.as_bytes()); s.dirty = false; s.name = Some("MEMORY:c.bas".into()); out += "Saved as MEMORY:c.bas\n"; true }),
            13 => (r.run("SAVE \"x:y\""), false),
            5 => (r.run("NEW"), { if go { s.name = None; s.text.clear(); s.dirty = false; s.clear(); } else { out += &aborted("NEW"); } true }),
            6 => {
                let all = rt::choose(2) == 1;
                if all { for k in 0..80 { r.c.borrow_mut().keys.push_back(if k < 20 { Key::Backspace } else { Key::Delete }); } }
                r.type_keys(if all { "\u{1b}" } else { "'\u{1b}" });
                let o = r.run("EDIT");
                if s.text.is_empty() { s.text = "\n".into(); }
                if all { s.dirty |= s.text != "\n"; s.text = "\n".into(); out = r.text(); }
                else {
                // Typed where the cursor was left.
                let at = s.text.find(|c| c != '\'').unwrap();
                s.text.insert(at, '\'');
                s.dirty = true;
                out = r.text();
                }
                (o, true)
            }
            7 => (r.run("RUN"), match s.exec() { Some(o) => { out += &o; true } None => false }),
            8 => (r.run("LIST"), { out += &s.text; true }),
            9 => (r.run("v = 5: COLOR 1, 2"), { s.v = Some(5); s.colored = true; true }),
            10 => (r.run("PRINT v"), match s.v { Some(v) => { out += &format!(" {}\n", v); true } None => false }),
            11 => (r.run("CLEAR"), { s.clear(); true }),
            _ => (r.run("KILL \"B.BAS\""), s.disk.delete("B.BAS").is_some()),
        };
        rt::check(matches!(got, Outcome::Eof) == ok, "commands fail exactly when they must");
        rt::check(matches!(got, Outcome::Eof | Outcome::Exc(1, 1, _) | Outcome::Exc(1, 6, _) | Outcome::Compile(..)), "failures are at the command");
        if ok || asks { rt::check(r.text() == out, "commands print what they do"); }
        rt::check(r.c.borrow().keys.is_empty(), "only unsaved changes are asked about");
        rt::check(r.c.borrow().color == if s.colored { (Some(1), Some(2)) } else { (None, None) }, "clearing resets the console");
        let p = r.program.borrow();
        rt::check(p.text() == s.text, "the stored program is the one that was loaded or typed");
        rt::check(p.is_dirty() == s.dirty && p.name() == s.name.as_deref(), "the stored program knows its name and whether it was saved");
    }
    s.disk.same(&r.storage.borrow());
    std::mem::forget(r);
    rt::cover("done");
}

rt::harness_main!(h_editor, h_paths, h_names, h_drives, h_program, h_pages, h_refill, h_help, h_loop, h_start, h_cloud);

// ---------------------------------------------------------------------------- pages

/// Somebody who looks at a screen of any size, page by page.
struct Pages { rows: u16, stop: bool }
fn pages(c: &Rc<RefCell<Cons>>, r: u16, answers: usize) -> Pages {
    let mut stop = false;
    for n in 0..answers {
        let k = if stop || n > 3 { 0 } else { rt::choose(4) };
        stop |= k >= 2;
        c.borrow_mut().keys.push_back(match k { 0 => Key::Char(' '), 1 => Key::EofOrDelete, 2 => Key::Escape, _ => Key::Interrupt });
    }
    Pages { rows: r, stop }
}
impl Pages {
    /// Checks what was printed and returns it without the pauses.
    fn seen(&self, c: &Cons, answers: usize) -> Vec<String> {
        let mut out = vec![];
        let (mut open, mut rows, mut most, mut n) = (String::new(), 0u16, 0usize, 0);
        let wide = c.size.x as usize;
        for e in &c.log {
            match e {
                Ev::Print(t) if t.contains("<< ") => {
                    rt::check(open.is_empty(), "pauses have their own line");
                    rt::check((most as u32 + 1 >= self.rows as u32) & (rows >= 1), "pauses are shown when the screen is full");
                    rows = 0; most = 0; n += 1;
                }
                Ev::Print(t) => {
                    rt::check(rows as u32 + 1 < self.rows as u32, "nothing leaves the screen unseen");
                    open += t;
                    // Lines that fill the screen may end on the next one.
                    rows += open.chars().count().div_ceil(wide).max(1) as u16;
                    most += open.len() / wide + 1;
                    out.push(std::mem::take(&mut open));
                }
                Ev::Write(t) => open += t,
                _ => (),
            }
        }
        rt::check(open.is_empty(), "lines are complete");
        rt::check(n == answers - c.keys.len(), "every pause waits for a key");
        out
    }
}

/// Listing programs of up to nine short lines on any screen.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pages(case: u32) {
    let mut r = repl();
    r.c.borrow_mut().interactive = true;
    let n = case as usize;
    let lines: Vec<String> = (0..n).map(|k| "'".repeat([3, 9, 0, 1, 10, 25][(k + n) % 6])).collect();
    r.program.borrow_mut().load(None, &lines.join("\n"));
    let (x, y) = (rt::pick(&[10, 40, u16::MAX]), rt::u16_());
    rt::assume(y >= 3);
    r.c.borrow_mut().size = CharsXY::new(x, y);
    let p = pages(&r.c, y, 9);
    let o = r.run("LIST");
    let c = r.c.borrow();
    let seen = p.seen(&c, 9);
    let stopped = p.stop && c.keys.len() < 9 && !matches!(o, Outcome::Eof);
    if stopped { rt::check(seen.len() <= n && seen[..] == lines[..seen.len()], "what is listed is the program"); rt::check(matches!(o, Outcome::Exc(1, 1, _)), "stopping is reported"); rt::cover("stopped"); }
    else { rt::check(matches!(o, Outcome::Eof), "listings end"); rt::check(seen == lines, "what is listed is the program"); rt::cover("listed"); }
    if (lines.iter().map(|l| l.len() / x as usize + 1).sum::<usize>() as u16) < y - 1 { rt::check(c.keys.len() == 9, "short listings do not pause"); }
    drop(c);
    std::mem::forget(r);
}

const PARAS: [&str; 8] = ["", "a bc def", "One.  Two three. four", "  indented text here", "looooooooong w", "\tx\ty", "                    deep", "Ünï cödé é é"];
/// Paragraphs on screens of any width. Case: the indentation and the first paragraph.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_refill(case: u32) {
    let mut c = Cons::new();
    let indent = ["", "  ", "    ", "          "][case as usize % 4];
    let ps = [PARAS[case as usize / 4], rt::pick(&PARAS)];
    let x = rt::u16_();
    c.size = CharsXY::new(x, 24);
    rt::check(refill_and_print(&mut c, ps, indent).is_ok(), "text is printed");
    let lines: Vec<&str> = c.log.iter().map(|e| match e { Ev::Print(t) => t.as_str(), _ => rt::fail("text is printed line by line") }).collect();
    // Paragraphs are separated by a blank line.
    let mut at = 0;
    for (k, p) in ps.iter().enumerate() {
        if k > 0 { rt::check(at < lines.len() && lines[at].is_empty(), "paragraphs are separated"); at += 1; }
        let lead = " ".repeat(p.chars().take_while(|c| c.is_whitespace()).count());
        let mut words = p.split_whitespace().peekable();
        if words.peek().is_none() { rt::check(at < lines.len() && lines[at].is_empty(), "empty paragraphs are kept"); at += 1; continue; }
        while words.peek().is_some() {
            if at >= lines.len() { rt::fail("all words are printed"); }
            let t = lines[at].strip_prefix(indent).and_then(|t| t.strip_prefix(lead.as_str()));
            let t = match t { Some(t) => t, None => rt::fail("lines are indented") };
            let mut n = 0;
            for w in t.split_whitespace() { rt::check(words.next() == Some(w), "all words are printed in order"); n += 1; }
            rt::check(n > 0, "lines have words");
            rt::check((n == 1) | ((lines[at].chars().count() as u16) < x), "lines fit on the screen");
            at += 1;
        }
    }
    rt::check(at == lines.len(), "nothing else is printed");
    rt::cover("printed");
}

/// Help on screens of any size. Case: the topic.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_help(case: u32) {
    let mut r = repl();
    r.c.borrow_mut().color = (Some(3), Some(4));
    let topic = ["HELP", "HELP \"len\"", "HELP \"Data\"", "HELP \"TYPES\"", "HELP \"mount\""][case as usize % 5];
    let interactive = case / 5 % 2 == 1;
    let words = |v: &[Ev]| -> Vec<String> { let mut s = String::new(); for e in v { match e { Ev::Print(t) if t.contains("<< ") => (), Ev::Print(t) => { s += t; s.push('\n'); } Ev::Write(t) => s += t, _ => () } } s.split_whitespace().map(|w| w.to_owned()).collect() };
    rt::check(matches!(r.run(topic), Outcome::Eof), "help is given");
    let want = words(&r.c.borrow().log);
    rt::check(want.len() > 5, "help is given");
    r.c.borrow_mut().interactive = interactive;
    let (x, y) = if interactive { (rt::pick(&[20, 80]), rt::pick(&[3, 5, 24])) } else { (rt::pick(&[0, 1, 4, 7, 8, 9, 12, 30]), 24) };
    r.c.borrow_mut().size = CharsXY::new(x, y);
    let stop = if interactive { rt::choose(8) } else { 8 };
    for k in 0..300 { r.c.borrow_mut().keys.push_back(if k == stop { rt::pick(&[Key::Escape, Key::Interrupt]) } else { Key::Char('x') }); }
    let o = r.run(topic);
    let c = r.c.borrow();
    let got = words(&c.log);
    let stopped = c.keys.len() == 299 - stop;
    rt::check(stopped | matches!(o, Outcome::Eof), "help only ends early when asked to");
    if interactive { Pages { rows: y, stop: stopped }.seen(&c, 300); }
    if matches!(o, Outcome::Eof) { rt::check(got == want, "the help is the same on all screens"); rt::cover("whole"); }
    else { rt::check(got.len() <= want.len() && got[..] == want[..got.len()], "the help is the same on all screens"); rt::cover("stopped"); }
    rt::check(c.color == (Some(3), Some(4)), "help gives the colors back");
    drop(c);
    std::mem::forget(r);
}

// ---------------------------------------------------------------------------- interactive loop

/// Any digit.
fn digit() -> u8 { let d = rt::u8_() & 15; rt::assume(d < 10); d + b'0' }

/// Lines typed one after the other. Case: the first one, whether the program starts with changes and the console.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_loop(case: u32) {
    let (deep, case) = (case / 100, case % 100);
    let (b, c, _, chan, y) = stdm::plain();
    let program = Rc::new(RefCell::new(Editor::default()));
    program.borrow_mut().load(Some("p.bas"), "PRINT 9\nv = 8\nEND 2");
    let mut m = b.make_interactive().with_program(program.clone()).build();
    let typed = |s: &str| for ch in s.chars() { c.borrow_mut().keys.push_back(match ch { '\n' => Key::NewLine, '\u{1b}' => Key::Escape, '\u{3}' => Key::Interrupt, c => Key::Char(c) }); };
    let (mut v, mut dirty, mut quotes, mut exit): (Option<i32>, bool, usize, Option<i32>) = (None, false, 0, None);
    let mut out: Vec<String> = vec![];
    let mut say = |s: &str| out.push(s.to_owned());
    // From 32 on, on a console that a person uses.
    let person = case >= 32;
    let case = case % 32;
    if person { c.borrow_mut().interactive = true; }
    if case >= 16 { typed("EDIT\n'\u{1b}"); dirty = true; quotes = 1; }
    for step in 0..3 + deep {
        let op = if step == 0 { case as usize % 16 } else { rt::choose(16) };
        let mut end = None;
        match op {
            0 => { typed("PRINT 1\n"); say(" 1"); }
            1 => { typed("PRINT v\n"); match v { Some(v) => say(&format!(" {}", v)), None => say("ERROR: 1:7: Undefined symbol v") } }
            2 => { let d = digit(); typed(&format!("v = {}: PRINT \"a\"\n", d as char)); v = Some((d - b'0') as i32); say("a"); }
            3 => { typed("BOGUS\n"); say("ERROR: 1:1: Undefined symbol BOGUS"); }
            4 => { typed("v = 4: PRINT 1 >> -1: v = 6\n"); say("?"); v = Some(4); }
            5 => { let d = digit(); typed(&format!("END {}\n", d as char)); end = Some((d - b'0') as i32); }
            6 => { typed("END: PRINT 5\n"); end = Some(0); }
            7 => typed("\n"),
            8 => {
                typed("RUN\n");
                v = None;
                if quotes == 0 { say(" 9"); }
                v = v.or(Some(8));
                say("Program exited with code 2");
            }
            9 => { typed("EDIT\n'\u{1b}"); dirty = true; quotes += 1; }
            10 => { typed("PRINT 7\u{3}"); say("**** BREAK ****"); }
            11 => { typed("PRINT 1: IF TRUE THEN\n"); say("?"); }
            12 => { typed("SAVE \"q\"\n"); dirty = false; say("Saved as MEMORY:q.bas"); }
            13 => { typed("CLEAR\n"); v = None; }
            14 => { typed("b% = 300: PRINT 2: END b%\n"); say(" 2"); say("?"); }
            _ => { typed("  print 3 ' END\n"); say(" 3"); }
        }
        if let Some(e) = end {
            if dirty {
                say("Current program p.bas has unsaved changes!");
                let k = rt::choose(3);
                typed(["y\n", "n\n", "\n"][k]);
                if k == 0 { exit = Some(e); break; }
                say("Exit aborted; resuming REPL loop.");
            } else { exit = Some(e); break; }
        }
        // Saved under another name.
        if op == 12 && step < 2 { break; }
        if person && step == 1 { break; }
    }
    // Signals while typing do not stop anything.
    if rt::choose(2) == 1 { let _ = chan.0.try_send(endbasic_std::Signal::Break); }
    y.borrow_mut().at.set(0);
    if exit.is_none() { say("End of input by CTRL-D"); exit = Some(0); }
    let p: Rc<RefCell<dyn Program>> = program.clone();
    let r = rt::block_on(endbasic_repl::run_repl_loop(&mut m, c.clone(), p));
    rt::check(r.ok() == exit, "the exit code is the one asked for");
    let got: Vec<String> = c.borrow().log.iter().filter_map(|e| match e { Ev::Print(t) => Some(t.clone()), _ => None }).collect();
    // The editor prints its own screen.
    let mut k = 0;
    let mut alt = false;
    let mut ready = 0;
    for e in &c.borrow().log {
        match e {
            Ev::EnterAlt => alt = true,
            Ev::LeaveAlt => alt = false,
            Ev::Print(t) if !alt && person && t == "Ready" => ready += 1,
            Ev::Print(t) if !alt && person && t.is_empty() => (),
            Ev::Print(t) if !alt => {
                if k >= out.len() { rt::fail("nothing else is printed"); }
                if out[k] == "?" { rt::check(t.starts_with("ERROR: 1:"), "errors are reported"); } else { rt::check(*t == out[k], "every line is executed once"); }
                k += 1;
            }
            _ => (),
        }
    }
    let _ = got;
    rt::check(!person || ready > 0, "the terminal says that it is ready");
    rt::check(k == out.len(), "every line is executed");
    rt::check(c.borrow().keys.is_empty(), "everything typed is read");
    std::mem::forget(m);
    rt::cover("left");
}

/// AUTOEXEC.BAS at startup.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_start(case: u32) {
    let mut r = repl();
    let (text, prints, v): (&[u8], &[&str], bool) = [
        (&b""[..], &[][..], false), (b"v = 1: PRINT \"x\"", &["x"], true), (b"v = 1\nEND 5\nPRINT 1", &[], true), (b"v = 1\nv = 1 >> -1", &["AUTOEXEC.BAS failed: 2:7:"], true),
        (b"", &["AUTOEXEC.BAS exists but cannot be read: "], false), (b"v = 1\nBOGUS", &["AUTOEXEC.BAS failed: 2:1:"], false), (b"\xff\xfe", &["AUTOEXEC.BAS failed: "], false), (b"v = 1: ON ERROR GOTO @x\nv = 1 >> -1\n@x: PRINT \"y\"", &["y"], true),
    ][case as usize % 8];
    // Only the file of the current drive with the exact name.
    let file = rt::pick(&["AUTOEXEC.BAS", "autoexec.bas", "X:/AUTOEXEC.BAS", ""]);
    let _ = r.storage.borrow_mut().mount("X", "memory://");
    if !file.is_empty() { let _ = rt::block_on(r.storage.borrow_mut().put(file, text)); }
    let mut found = file == "AUTOEXEC.BAS";
    if case % 8 == 4 {
        // The current drive cannot be read.
        let kind = rt::pick(&[io::ErrorKind::NotFound, io::ErrorKind::Other, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidData, io::ErrorKind::Interrupted]);
        let mut st = r.storage.borrow_mut();
        st.register_scheme("broken", Box::new(Broken(kind)));
        rt::check(st.mount("Z", "broken://").is_ok() && st.cd("Z:").is_ok(), "drives can be mounted");
        found = kind != io::ErrorKind::NotFound;
    }
    rt::check(rt::block_on(endbasic_repl::try_load_autoexec(&mut r.m, r.c.clone(), r.storage.clone())).is_ok(), "starting does not fail");
    let got: Vec<String> = r.c.borrow().log.iter().filter_map(|e| match e { Ev::Print(t) => Some(t.clone()), _ => None }).collect();
    let prints = if found { prints } else { &[] };
    rt::check(got.len() == prints.len() && got.iter().zip(prints).all(|(a, b)| a.starts_with(b)), "AUTOEXEC.BAS runs once and its failures are reported");
    rt::check(matches!(r.run("PRINT v"), Outcome::Eof) == (v && found), "what AUTOEXEC.BAS did is kept");
    rt::check(matches!(r.run("w = 2: PRINT w"), Outcome::Eof) && r.text() == " 2\n", "the interpreter can be used afterwards");
    std::mem::forget(r);
    rt::cover("started");
}

/// Drives that cannot be read.
struct Broken(io::ErrorKind);
impl DriveFactory for Broken { fn create(&self, _: &str) -> io::Result<Box<dyn Drive>> { Ok(Box::new(Broken(self.0))) } }
#[async_trait::async_trait(?Send)]
impl Drive for Broken {
    async fn delete(&mut self, _: &str) -> io::Result<()> { Err(self.0.into()) }
    async fn enumerate(&self) -> io::Result<DriveFiles> { Err(self.0.into()) }
    async fn get(&self, _: &str) -> io::Result<Vec<u8>> { Err(self.0.into()) }
    async fn put(&mut self, _: &str, _: &[u8]) -> io::Result<()> { Err(self.0.into()) }
}

struct Cloud { text: Vec<u8> }
impl DriveFactory for Cloud {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        rt::check(target == "me", "the drive of the user is opened");
        let mut d = InMemoryDrive::default();
        rt::block_on(d.put("p.bas", &self.text))?;
        Ok(Box::new(d))
    }
}

/// Programs that are run from the cloud.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_cloud(case: u32) {
    let mut r = repl();
    let v = rt::i32_();
    let n = rt::conc(rt::choose(3) as u64) as i32 * 2;
    let (text, code, print): (String, i32, &str) = match case % 7 {
        0 => ("PRINT 1".into(), 0, "**** Program exited due to EOF ****"),
        1 => (format!("PRINT 1: END {}", n), n, ["**** Program exited with code 0 ****", "**** Program exited with code 2 ****", "**** Program exited with code 4 ****"][n as usize / 2]),
        2 => ("PRINT 1: v = 1 >> -1".into(), 1, "**** ERROR: 1:16:"),
        3 => ("BOGUS".into(), 1, "**** ERROR: 1:1:"),
        4 => ("PRINT 1: DO: LOOP".into(), 130, "**** Program stopped due to BREAK ****"),
        5 => ("\u{0}".into(), 1, "**** ERROR: "),
        _ => ("ON ERROR RESUME NEXT: v = 1 >> -1: PRINT 1".into(), 0, "**** Program exited due to EOF ****"),
    };
    let _ = v;
    let path = rt::pick(&["me/p.bas", "me/none.bas", "nobody"]);
    r.storage.borrow_mut().register_scheme("cloud", Box::new(Cloud { text: text.clone().into_bytes() }));
    let again = rt::choose(2) == 1;
    if case % 7 == 4 { r.stop_at(2); }
    let o = rt::block_on(endbasic_repl::run_from_cloud(&mut r.m, r.c.clone(), r.storage.clone(), r.program.clone(), path, again));
    let out = r.text();
    match path {
        "me/p.bas" => {
            rt::check(o.ok() == Some(code), "the exit code is the one of the program");
            rt::check(out.contains(print), "the end of the program is reported");
            rt::check(out.contains("\n 1\n") == !matches!(case % 7, 3 | 5), "the program runs");
            rt::check(r.program.borrow().name() == Some("AUTORUN:/p.bas") && r.program.borrow().text() == text + "\n", "the program is kept");
            rt::check(out.contains("You are now being dropped") == again, "the interpreter is introduced");
            // Nothing of the program is left over but its variables.
            rt::check(matches!(r.run("PRINT 1: BOGUS"), Outcome::Compile(..)), "errors are not hidden by the program");
            rt::check(matches!(r.run("w = 1 >> -1"), Outcome::Exc(..)), "errors are not hidden by the program");
            rt::cover("ran");
        }
        "nobody" => { rt::check(o.ok() == Some(1) && out.contains("Invalid program to run 'nobody'"), "bad paths are reported"); rt::cover("bad"); }
        _ => rt::check(o.is_err(), "missing programs are reported"),
    }
    std::mem::forget(r);
}
