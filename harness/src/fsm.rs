//! A file system in memory behind the names of the system calls, for the executor and for the
//! native replays alike. Transfers may be partial and any call may fail.
use std::ffi::{c_char, c_int, c_void, CStr};

pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const EBADF: c_int = 9;
pub const EACCES: c_int = 13;
pub const ENOENT: c_int = 2;
pub const EEXIST: c_int = 17;
pub const EISDIR: c_int = 21;
pub const ENOTDIR: c_int = 20;
pub const ENOSPC: c_int = 28;
pub const ENOSYS: c_int = 38;

pub struct Open { file: usize, pos: usize, write: bool, dir: Option<Vec<(String, u8)>>, path: String }
pub struct Fs {
    pub on: bool,
    /// Name, content. Deleted files have no name.
    pub files: Vec<(String, Vec<u8>)>,
    pub dirs: Vec<String>,
    pub fds: Vec<Option<Open>>,
    /// Bytes that move at once.
    pub max: usize,
    /// The call that fails (counting from here), and how.
    pub fail: usize,
    pub err: c_int,
    pub failed: bool,
    /// Paths that were opened, changed or looked at.
    pub touched: Vec<String>,
    /// What went to the standard output, how much of it at the last flush, and what is to come in.
    pub out: Vec<u8>,
    pub input: Vec<u8>,
    pub tty: bool,
    /// Files written since they were last synced.
    pub dirty: Vec<usize>,
}
struct Shared(std::cell::UnsafeCell<Fs>);
unsafe impl Sync for Shared {}
static FS: Shared = Shared(std::cell::UnsafeCell::new(Fs { on: false, files: vec![], dirs: vec![], fds: vec![], max: usize::MAX, fail: usize::MAX, err: 0, failed: false, touched: vec![], out: vec![], input: vec![], tty: false, dirty: vec![] }));
static mut ERRNO: c_int = 0;
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs { unsafe { &mut *FS.0.get() } }

impl Fs {
    pub fn find(&self, p: &str) -> Option<usize> { self.files.iter().position(|f| f.0 == p) }
    pub fn content(&self, p: &str) -> Option<&[u8]> { self.find(p).map(|k| &self.files[k].1[..]) }
    pub fn put(&mut self, p: &str, c: &[u8]) { match self.find(p) { Some(k) => self.files[k].1 = c.to_vec(), None => self.files.push((p.into(), c.to_vec())) } }
    /// Whether a call fails now.
    fn fault(&mut self, eintr: bool) -> bool {
        if self.fail == 0 {
            if self.err == EINTR && !eintr { return false; }
            self.fail = usize::MAX;
            self.failed = true;
            set(self.err);
            return true;
        }
        if self.fail != usize::MAX { self.fail -= 1; }
        false
    }
    fn parent_ok(&self, p: &str) -> bool { match p.rsplit_once('/') { Some(("", _)) => true, Some((d, _)) => self.dirs.iter().any(|x| x == d), None => false } }
    fn alloc(&mut self, o: Open) -> c_int {
        for (k, f) in self.fds.iter_mut().enumerate() { if f.is_none() { *f = Some(o); return k as c_int + 100; } }
        self.fds.push(Some(o));
        self.fds.len() as c_int + 99
    }
    fn get(&mut self, fd: c_int) -> Option<&mut Open> { if fd < 100 { return None; } self.fds.get_mut(fd as usize - 100).and_then(|f| f.as_mut()) }
}
/// Back to the real files.
pub fn end() { fs().on = false; }
fn set(e: c_int) { unsafe { ERRNO = e } }
fn path(p: *const c_char) -> String { unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned() }
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn malloc(n: usize) -> *mut c_void;
}

#[no_mangle]
pub extern "C" fn __errno_location() -> *mut c_int { &raw mut ERRNO }

#[no_mangle]
pub extern "C" fn __xpg_strerror_r(_e: c_int, b: *mut u8, n: usize) -> c_int { if n > 1 { unsafe { *b = b'e'; *b.add(1) = 0; } } 0 }
#[no_mangle]
pub extern "C" fn open64(p: *const c_char, flags: c_int, _mode: u32) -> c_int {
    let f = fs();
    if !f.on { return unsafe { syscall(2, p, flags as i64, 0o600i64) as c_int }; }
    let p = path(p);
    f.touched.push(p.clone());
    if f.fault(true) { return -1; }
    let (wr, creat, trunc, excl) = (flags & 3 != 0, flags & 0o100 != 0, flags & 0o1000 != 0, flags & 0o200 != 0);
    if f.dirs.contains(&p) { if wr { set(EISDIR); return -1; } let o = Open { file: usize::MAX, pos: 0, write: false, dir: None, path: p }; return f.alloc(o); }
    let k = match f.find(&p) {
        Some(_) if creat && excl => { set(EEXIST); return -1; }
        Some(k) => k,
        None if creat && f.parent_ok(&p) => { f.files.push((p.clone(), vec![])); f.files.len() - 1 }
        None => { set(ENOENT); return -1; }
    };
    if trunc && wr { f.files[k].1.clear(); f.dirty.push(k); }
    let pos = if flags & 0o2000 != 0 { f.files[k].1.len() } else { 0 };
    f.alloc(Open { file: k, pos, write: wr, dir: None, path: p })
}
#[no_mangle]
pub extern "C" fn read(fd: c_int, b: *mut u8, n: usize) -> isize {
    let f = fs();
    if !f.on { return unsafe { syscall(0, fd as i64, b, n) as isize }; }
    if f.fault(true) { return -1; }
    let m = n.min(f.max);
    if fd == 0 {
        let m = m.min(f.input.len());
        for k in 0..m { unsafe { *b.add(k) = f.input[k] } }
        f.input.drain(..m);
        return m as isize;
    }
    let Some(o) = f.get(fd) else { set(EBADF); return -1; };
    if o.file == usize::MAX { set(EISDIR); return -1; }
    let (k, pos) = (o.file, o.pos);
    let m = m.min(f.files[k].1.len().saturating_sub(pos));
    for i in 0..m { unsafe { *b.add(i) = f.files[k].1[pos + i] } }
    f.get(fd).unwrap().pos += m;
    m as isize
}
#[no_mangle]
pub extern "C" fn write(fd: c_int, b: *const u8, n: usize) -> isize {
    let f = fs();
    if !f.on || fd == 2 { return unsafe { syscall(1, fd as i64, b, n) as isize }; }
    let m = n.min(f.max);
    if fd == 1 { for k in 0..m { f.out.push(unsafe { *b.add(k) }); } return m as isize; }
    if f.fault(true) { return -1; }
    let Some(o) = f.get(fd) else { set(EBADF); return -1; };
    if !o.write { set(EBADF); return -1; }
    let (k, pos) = (o.file, o.pos);
    o.pos += m;
    let c = &mut f.files[k].1;
    if c.len() < pos + m { c.resize(pos + m, 0); }
    for i in 0..m { c[pos + i] = unsafe { *b.add(i) }; }
    if !f.dirty.contains(&k) { f.dirty.push(k); }
    m as isize
}
#[no_mangle]
pub extern "C" fn close(fd: c_int) -> c_int {
    let f = fs();
    if !f.on { return unsafe { syscall(3, fd as i64) as c_int }; }
    if f.get(fd).is_none() { set(EBADF); return -1; }
    f.fds[fd as usize - 100] = None;
    0
}
fn sync(fd: c_int) -> c_int {
    let f = fs();
    if f.fault(true) { return -1; }
    let Some(o) = f.get(fd) else { set(EBADF); return -1; };
    let k = o.file;
    f.dirty.retain(|x| *x != k);
    0
}
#[no_mangle]
pub extern "C" fn fsync(fd: c_int) -> c_int { sync(fd) }
#[no_mangle]
pub extern "C" fn fdatasync(fd: c_int) -> c_int { sync(fd) }
#[no_mangle]
pub extern "C" fn lseek64(fd: c_int, off: i64, how: c_int) -> i64 {
    let f = fs();
    let Some(o) = f.get(fd) else { set(EBADF); return -1; };
    let (k, pos) = (o.file, o.pos as i64);
    let p = match how { 0 => off, 1 => pos + off, _ => f.files[k].1.len() as i64 + off };
    f.get(fd).unwrap().pos = p as usize;
    p
}
#[no_mangle]
pub extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let f = fs();
    if f.fault(true) { return -1; }
    let Some(o) = f.get(fd) else { set(EBADF); return -1; };
    let k = o.file;
    f.files[k].1.resize(n as usize, 0);
    if !f.dirty.contains(&k) { f.dirty.push(k); }
    0
}
#[no_mangle]
pub extern "C" fn unlink(p: *const c_char) -> c_int {
    let f = fs();
    let p = path(p);
    f.touched.push(p.clone());
    if f.fault(false) { return -1; }
    if f.dirs.contains(&p) { set(EISDIR); return -1; }
    match f.find(&p) { Some(k) => { f.files[k].0.clear(); 0 } None => { set(ENOENT); -1 } }
}
#[no_mangle]
pub extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int {
    let f = fs();
    let (p, q) = (path(p), path(q));
    f.touched.push(p.clone());
    f.touched.push(q.clone());
    if f.fault(false) { return -1; }
    let Some(k) = f.find(&p) else { set(ENOENT); return -1; };
    if !f.parent_ok(&q) { set(ENOENT); return -1; }
    if let Some(o) = f.find(&q) { if o != k { f.files[o].0.clear(); } }
    f.files[k].0 = q;
    0
}
#[no_mangle]
pub extern "C" fn mkdir(p: *const c_char, _mode: u32) -> c_int {
    let f = fs();
    let p = path(p);
    f.touched.push(p.clone());
    if f.fault(false) { return -1; }
    if f.dirs.contains(&p) || f.find(&p).is_some() { set(EEXIST); return -1; }
    if !f.parent_ok(&p) { set(ENOENT); return -1; }
    f.dirs.push(p);
    0
}
#[no_mangle]
pub extern "C" fn realpath(p: *const c_char, _out: *mut c_char) -> *mut c_char {
    let f = fs();
    let p = path(p);
    f.touched.push(p.clone());
    if f.fault(false) { return std::ptr::null_mut(); }
    if !f.dirs.contains(&p) && f.find(&p).is_none() { set(ENOENT); return std::ptr::null_mut(); }
    unsafe {
        let m = malloc(p.len() + 1) as *mut u8;
        for (k, b) in p.bytes().enumerate() { *m.add(k) = b; }
        *m.add(p.len()) = 0;
        m as *mut c_char
    }
}
/// The fields of struct statx that matter.
#[no_mangle]
pub extern "C" fn statx(fd: c_int, p: *const c_char, _flags: c_int, _mask: u32, buf: *mut u8) -> c_int {
    let f = fs();
    if buf.is_null() || p.is_null() { set(14); return -1; }
    if f.fault(false) { return -1; }
    let p = path(p);
    let (dir, len) = if p.is_empty() {
        match f.get(fd) { Some(o) => { let k = o.file; if k == usize::MAX { (true, 0) } else { (false, f.files[k].1.len()) } } None => { set(EBADF); return -1; } }
    } else {
        f.touched.push(p.clone());
        if f.dirs.contains(&p) { (true, 0) } else { match f.find(&p) { Some(k) => (false, f.files[k].1.len()), None => { set(ENOENT); return -1; } } }
    };
    unsafe {
        for k in 0..256 { *buf.add(k) = 0; }
        (buf as *mut u32).write_unaligned(0x7ff);
        (buf.add(4) as *mut u32).write_unaligned(4096);
        (buf.add(16) as *mut u32).write_unaligned(1);
        (buf.add(28) as *mut u16).write_unaligned(if dir { 0o40755 } else { 0o100644 });
        (buf.add(40) as *mut u64).write_unaligned(len as u64);
        (buf.add(112) as *mut i64).write_unaligned(1_588_757_875);
    }
    0
}
#[no_mangle]
pub extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let f = fs();
    let p = path(p);
    f.touched.push(p.clone());
    if f.fault(false) { return std::ptr::null_mut(); }
    if !f.dirs.contains(&p) { set(if f.find(&p).is_some() { ENOTDIR } else { ENOENT }); return std::ptr::null_mut(); }
    let mut l = vec![(".".to_owned(), 4u8), ("..".to_owned(), 4u8)];
    let pre = format!("{}/", p);
    for (n, _) in &f.files { if let Some(r) = n.strip_prefix(&pre) { if !r.contains('/') { l.push((r.to_owned(), 8)); } } }
    for n in &f.dirs { if let Some(r) = n.strip_prefix(&pre) { if !r.contains('/') { l.push((r.to_owned(), 4)); } } }
    let fd = f.alloc(Open { file: usize::MAX, pos: 0, write: false, dir: Some(l), path: p });
    // The entry that was read last follows the descriptor.
    unsafe { let m = malloc(8 + 280) as *mut u8; (m as *mut i64).write(fd as i64); m as *mut c_void }
}
#[no_mangle]
pub extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    let f = fs();
    if f.fault(false) { return std::ptr::null_mut(); }
    let fd = unsafe { *(d as *mut i64) } as c_int;
    let Some(o) = f.get(fd) else { set(EBADF); return std::ptr::null_mut(); };
    let l = o.dir.as_ref().unwrap();
    if o.pos >= l.len() { return std::ptr::null_mut(); }
    let (n, t) = l[o.pos].clone();
    o.pos += 1;
    unsafe {
        let e = (d as *mut u8).add(8);
        (e as *mut u64).write(1);
        (e.add(8) as *mut u64).write(o.pos as u64);
        (e.add(16) as *mut u16).write(280);
        *e.add(18) = t;
        for (k, b) in n.bytes().enumerate() { *e.add(19 + k) = b; }
        *e.add(19 + n.len()) = 0;
        e as *mut c_void
    }
}
#[no_mangle]
pub extern "C" fn dirfd(d: *mut c_void) -> c_int { unsafe { *(d as *mut i64) as c_int } }
#[no_mangle]
pub extern "C" fn closedir(d: *mut c_void) -> c_int { close(dirfd(d)) }
#[no_mangle]
pub extern "C" fn isatty(_fd: c_int) -> c_int { fs().tty as c_int }
/// Local time is UTC.
#[no_mangle]
pub extern "C" fn localtime_r(_t: *const i64, tm: *mut u8) -> *mut u8 { unsafe { for k in 0..56 { *tm.add(k) = 0; } } tm }
#[no_mangle]
pub extern "C" fn tzset() {}
