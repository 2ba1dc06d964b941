// Modelled externals: harness intrinsics, the allocator, libc leaves, LLVM intrinsics and
// the panic machinery.  Everything else runs from its IR.

fn native_id(n: &str) -> u16 {
    let l = |p: &str| n.starts_with(p);
    match n {
        "symex_u8" | "symex_u16" | "symex_u32" | "symex_u64" => return 1,
        "symex_bytes" => return 2,
        "symex_choose" => return 3,
        "symex_assume" => return 4,
        "symex_check" => return 5,
        "symex_observe" => return 6,
        "symex_cover" => return 7,
        "symex_done" => return 8,
        "symex_conc" => return 9,
        "symex_log" => return 10,
        "symex_label" => return 11,
        "symex_symbolic" => return 12,
        "symex_observe_bytes" => return 13,
        "symex_thread" => return 14,
        "symex_turn" => return 15,
        "malloc" => return 20,
        "calloc" => return 21,
        "realloc" => return 22,
        "free" => return 23,
        "posix_memalign" | "aligned_alloc" => return 24,
        "memcpy" | "memmove" => return 25,
        "memset" => return 26,
        "bcmp" | "memcmp" => return 27,
        "strlen" => return 28,
        "write" => return 30,
        "getenv" => return 31,
        "syscall" => return 32,
        "__errno_location" => return 33,
        "abort" => return 34,
        "gettid" | "getpid" => return 35,
        "clock_gettime" => return 36,
        "open" | "open64" | "stat64" | "fstat64" | "statx" | "readlink" | "read" | "fcntl" | "poll" | "isatty" | "ioctl" => return 37,
        "getcwd" | "realpath" | "mmap64" => return 31,
        "pthread_key_delete" | "__cxa_thread_atexit_impl" | "close" | "munmap" | "sched_yield" | "pthread_self" | "nanosleep" | "clock_nanosleep" | "pthread_setspecific" => return 38,
        "pthread_key_create" => return 140,
        "getrandom" => return 39,
        "sin" | "cos" | "tan" | "atan" | "acos" | "asin" | "exp" | "log" | "log10" | "log2" | "pow" | "exp2" | "atan2" => return 90,
        "fmod" | "fmodf" => return 91,
        "floor" | "ceil" | "trunc" | "round" | "rint" | "sqrt" | "roundeven" | "nearbyint" => return 92,
        "_Unwind_Backtrace" => return 38,
        _ => (),
    }
    if l("llvm.memcpy") || l("llvm.memmove") { return 25; }
    if l("llvm.memset") { return 26; }
    if l("llvm.ctpop") { return 50; }
    if l("llvm.cttz") { return 51; }
    if l("llvm.ctlz") { return 52; }
    if l("llvm.umin.") { return 53; }
    if l("llvm.umax.") { return 54; }
    if l("llvm.smin.") { return 55; }
    if l("llvm.smax.") { return 56; }
    if l("llvm.usub.sat") { return 57; }
    if l("llvm.uadd.sat") { return 58; }
    if l("llvm.ssub.sat") { return 59; }
    if l("llvm.sadd.sat") { return 60; }
    if l("llvm.uadd.with.overflow") { return 61; }
    if l("llvm.usub.with.overflow") { return 62; }
    if l("llvm.umul.with.overflow") { return 63; }
    if l("llvm.sadd.with.overflow") { return 64; }
    if l("llvm.ssub.with.overflow") { return 65; }
    if l("llvm.smul.with.overflow") { return 66; }
    if l("llvm.fshl") { return 67; }
    if l("llvm.fshr") { return 68; }
    if l("llvm.bswap") { return 69; }
    if l("llvm.bitreverse") { return 70; }
    if l("llvm.abs.") { return 71; }
    if l("llvm.ucmp") { return 72; }
    if l("llvm.scmp") { return 73; }
    if l("llvm.is.constant") { return 74; }
    if l("llvm.load.relative") { return 75; }
    if l("llvm.threadlocal.address") { return 16; }
    if l("llvm.expect") || l("llvm.ssa.copy") { return 76; }
    if l("llvm.trap") || l("llvm.ubsantrap") { return 34; }
    if l("llvm.fabs") { return 77; }
    if l("llvm.sqrt") || l("llvm.floor") || l("llvm.ceil") || l("llvm.trunc.f") || l("llvm.round") || l("llvm.rint") || l("llvm.nearbyint") { return 92; }
    if l("llvm.fptosi.sat") { return 78; }
    if l("llvm.fptoui.sat") { return 79; }
    if l("llvm.copysign") { return 80; }
    if l("llvm.minnum") || l("llvm.minimumnum") { return 81; }
    if l("llvm.maxnum") || l("llvm.maximumnum") { return 82; }
    if l("llvm.ptrmask") { return 83; }
    if l("llvm.sin") || l("llvm.cos") || l("llvm.tan") || l("llvm.exp") || l("llvm.log") || l("llvm.pow.") || l("llvm.atan") { return 90; }
    if l("llvm.powi") { return 93; }
    if l("llvm.x86.sse2.pause") { return 38; }
    if l("llvm.vector.reduce.or") { return 84; }
    if l("llvm.vector.reduce.and") { return 85; }
    if l("llvm.vector.reduce.add") { return 86; }
    if l("llvm.is.fpclass") { return 87; }
    if l("llvm.fmuladd") || l("llvm.fma") { return 88; }
    if n.contains("9panicking9panic_fmt") || n.contains("panicking18panic_nounwind_fmt") || n.contains("rust_begin_unwind") { return 40; }
    if n.contains("handle_alloc_error") || n.contains("rust_oom") || n.contains("alloc_error_handler") || n.contains("rust_panic") || n.contains("panicking11begin_panic") { return 41; }
    if n == "__rust_alloc" || n.ends_with("___rustc12___rust_alloc") { return 45; }
    if n.ends_with("___rustc14___rust_dealloc") { return 46; }
    if n.ends_with("___rustc14___rust_realloc") { return 47; }
    if n.ends_with("___rustc19___rust_alloc_zeroed") { return 48; }
    0
}

const MAXALLOC: u64 = 1 << 28;

impl Engine {
    fn sized(&mut self, st: &mut State, n: u64) -> R<Option<u64>> {
        let _ = st;
        if n > 1 << 40 { return Ok(None); }
        if n > MAXALLOC { return Err(Stop::Incomplete("allocation larger than the modelled heap".into())); }
        Ok(Some(n))
    }
    fn do_free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 { return Ok(()); }
        let o = self.obj(st, p, 0)?;
        if p as u32 != 0 || !o.heap { return Err(Stop::Viol("ptr", "freeing something that is not the start of a heap block".into())); }
        self.kill_obj(st, (p >> 32) as u32);
        Ok(())
    }
    fn do_realloc(&mut self, st: &mut State, p: u64, n: u64) -> R<u64> {
        let olen = self.obj(st, p, 0)?.data.len() as u64;
        let a = match self.sized(st, n)? { Some(n) => self.new_obj(st, n, true), None => return Ok(0) };
        self.copy(st, a, p, olen.min(n))?;
        self.do_free(st, p)?;
        Ok(a)
    }
    fn native(&mut self, st: &mut State, k: u16, g: u32, args: &[(Ty, Opd)], ret: &Ty) -> R<Option<Val>> {
        let name = self.m.globals[g as usize].0;
        let vals: Vec<Val> = args.iter().map(|(_, o)| self.val(st, o)).collect();
        macro_rules! num { ($i:expr) => {{ let w = args[$i].0.width(); self.conc(st, &vals[$i], w)? }} }
        let a = ar();
        let out: Option<Val> = match k {
            1 => {
                let w = ret.width();
                let e = match self.fixed.get(st.inputs.len()) { Some(v) => a.constant(*v, w), None => a.var(&format!("in{}", st.inputs.len()), w) };
                st.inputs.push(e);
                Some(Val::S(e))
            }
            2 => {
                let p = num!(0);
                let n = num!(1);
                for i in 0..n { let e = match self.fixed.get(st.inputs.len()) { Some(v) => a.constant(*v, 8), None => a.var(&format!("in{}", st.inputs.len()), 8) }; st.inputs.push(e); self.store_n(st, p + i, 1, &Val::S(e))?; }
                None
            }
            3 => {
                // A structural choice: every value below n is explored, one path each.
                let n = num!(0);
                if let Some(v) = self.fixed.get(st.inputs.len()) { let v = *v; st.inputs.push(a.constant(v, 32)); return Ok(Some(Val::C(v as u64))); }
                if n == 0 { return Err(Stop::Infeasible); }
                let at = st.inputs.len();
                if self.choice_vars.len() <= at { self.choice_vars.resize(at + 1, None); }
                let var = *self.choice_vars[at].get_or_insert_with(|| a.var(&format!("choice{}", at), 32));
                let lim = a.constant(n as u128, 32);
                let lim = a.ult(var, lim);
                self.assumed.insert(lim);
                st.path.push(lim);
                for i in (1..n).rev() {
                    let mut o = st.clone();
                    let c = a.constant(i as u128, 32);
                    o.inputs.push(c);
                    o.path.push(a.eq(var, c));
                    let (d, nm) = match &o.fr.f.blocks[o.fr.block as usize].insts[o.fr.ip as usize] { Inst::Call { dst, normal, .. } => (*dst, *normal), _ => panic!() };
                    self.finish_call(&mut o, d, nm, Some(Val::C(i)));
                    self.work.push(o);
                    self.cov.forks += 1;
                }
                let z = a.constant(0, 32);
                st.path.push(a.eq(var, z));
                st.inputs.push(z);
                Some(Val::C(0))
            }
            4 => {
                let c = match &vals[0] { Val::C(c) => { if *c == 0 { return Err(Stop::Infeasible); } return Ok(None); } v => te(v, 32) };
                let z = a.constant(0, 32);
                let q = a.eq(c, z);
                let q = a.not(q);
                match self.sat_with(st, q) { Some(Some(m)) => { st.model = m; self.add(st, q); self.assumed.insert(q); st.path.push(q); } Some(None) => return Err(Stop::Infeasible), None => return Err(Stop::Incomplete("undecided assumption".into())) }
                None
            }
            5 => {
                let (p, n) = (num!(1), num!(2));
                let label = self.read_str(st, p, n)?;
                let c = te(&vals[0], 32);
                let z = a.constant(0, 32);
                let q = a.eq(c, z);
                let q = a.not(q);
                self.check(st, q, label)?;
                None
            }
            6 => {
                let (p, n) = (num!(1), num!(2));
                let label = self.read_str(st, p, n)?;
                st.obs.push((label.into(), vals[0].clone(), 64));
                None
            }
            7 => { let (p, n) = (num!(0), num!(1)); let label = self.read_str(st, p, n)?; *self.cov.covers.entry(label).or_default() += 1; None }
            8 => return Err(Stop::Done),
            9 => Some(Val::C(num!(0))),
            10 => { let (p, n) = (num!(0), num!(1)); if self.verbose { let s = self.read_str(st, p, n)?; eprintln!("LOG {}", s); } None }
            11 => { let (p, n) = (num!(0), num!(1)); let s = self.read_str(st, p, n)?; st.label = s.into(); None }
            12 => Some(Val::C(1)),
            13 => {
                let (p, n, lp, ln) = (num!(0), num!(1), num!(2), num!(3));
                let label = self.read_str(st, lp, ln)?;
                st.obs.push((format!("{}.len", label).into(), Val::C(n), 64));
                for i in 0..n { let v = self.load_n(st, p + i, 1)?; st.obs.push((format!("{}[{}]", label, i).into(), v, 8)); }
                None
            }
            14 => {
                let (f, x) = (num!(0), num!(1));
                let nf = match self.m.func(self.resolve_alias((f >> 32) as u32)) { Some(nf) => nf, None => return Err(Stop::Incomplete("thread without a body".into())) };
                self.executed[nf.gid as usize] = true;
                let mut regs = vec![Val::C(x)];
                regs.truncate(nf.nparams);
                regs.resize(nf.nregs, Val::C(0));
                st.other = Some(Box::new((Frame { f: nf, block: 0, ip: 0, regs, allocas: vec![], dst: None, normal: None }, vec![])));
                None
            }
            16 => {
                // The second thread has its own copies of what is local to threads.
                let x = num!(0);
                if !st.second { return Ok(Some(Val::C(x))); }
                let g = self.resolve_alias((x >> 32) as u32);
                if let Some(v) = st.tls.get(&g) { return Ok(Some(Val::C(*v + (x & 0xffff_ffff)))); }
                let Some(o) = self.global_obj(g) else { return Err(Stop::Incomplete("thread-local without a value".into())) };
                let v = self.new_obj(st, o.data.len() as u64, false);
                self.obj_mut(st, v, 0)?.data.copy_from_slice(&o.data);
                Rc::make_mut(&mut st.tls).insert(g, v);
                Some(Val::C(v + (x & 0xffff_ffff)))
            }
            15 => { if st.other.is_some() { st.turn = true; } None }
            20 | 45 => { let n = num!(0); Some(Val::C(match self.sized(st, n)? { Some(n) => self.new_obj(st, n, true), None => 0 })) }
            48 => { let n = num!(0); Some(Val::C(match self.sized(st, n)? { Some(n) => self.new_obj(st, n, true), None => 0 })) }
            21 => { let n = num!(0); let m = num!(1); match n.checked_mul(m) { Some(n) => Some(Val::C(match self.sized(st, n)? { Some(n) => self.new_obj(st, n, true), None => 0 })), None => Some(Val::C(0)) } }
            22 => { let p = num!(0); let n = num!(1); if p == 0 { Some(Val::C(match self.sized(st, n)? { Some(n) => self.new_obj(st, n, true), None => 0 })) } else { Some(Val::C(self.do_realloc(st, p, n)?)) } }
            47 => { let p = num!(0); let n = num!(3); Some(Val::C(self.do_realloc(st, p, n)?)) }
            23 | 46 => { let p = num!(0); self.do_free(st, p)?; None }
            24 => { let (pp, _al, n) = (num!(0), num!(1), num!(2)); match self.sized(st, n)? { Some(n) => { let x = self.new_obj(st, n, true); self.store_n(st, pp, 8, &Val::C(x))?; Some(Val::C(0)) } None => Some(Val::C(12)) } }
            25 => { let (d, s, n) = (num!(0), num!(1), num!(2)); self.copy(st, d, s, n)?; if *ret == Ty::Ptr { Some(Val::C(d)) } else { None } }
            26 => {
                let d = num!(0);
                let n = num!(2);
                if n > 0 {
                    let v = match &vals[1] { Val::S(e) if a.w(*e) > 8 => fe(a.extract(*e, 0, 8)), Val::C(c) => Val::C(c & 255), v => v.clone() };
                    let o = self.obj_mut(st, d, n)?;
                    let off = (d & 0xffff_ffff) as usize;
                    match v { Val::C(c) => { for x in &mut o.data[off..off + n as usize] { *x = c as u8; } if let Some(s) = &mut o.sym { for x in &mut s[off..off + n as usize] { *x = (0, 0); } } } v => for i in 0..n as usize { Self::store_bits(o, off + i, 1, &v); } }
                }
                if *ret == Ty::Ptr { Some(Val::C(d)) } else { None }
            }
            27 => {
                let (p, q, n) = (num!(0), num!(1), num!(2));
                let bc = name == "bcmp";
                // Fast path
                if n > 0 { let _ = self.obj(st, p, n)?; let _ = self.obj(st, q, n)?; }
                let mut acc = a.constant(0, 32); // result for the suffix
                let one = a.constant(1, 32);
                let mone = a.constant(u32::MAX as u128, 32);
                if bc {
                    let mut all = a.tt();
                    for i in 0..n { let x = self.load_n(st, p + i, 1)?; let y = self.load_n(st, q + i, 1)?; let e = a.eq(te(&x, 8), te(&y, 8)); all = a.and(all, e); if a.cv(all) == Some(0) { break; } }
                    Some(fe(a.ite(all, acc, one)))
                } else {
                    let mut first: Option<u64> = None;
                    for i in 0..n { let x = self.load_n(st, p + i, 1)?; let y = self.load_n(st, q + i, 1)?; if let (Val::C(x), Val::C(y)) = (&x, &y) { if x != y { first = Some(i); break; } } }
                    let end = first.map(|i| i + 1).unwrap_or(n);
                    for i in (0..end).rev() {
                        let x = self.load_n(st, p + i, 1)?; let y = self.load_n(st, q + i, 1)?;
                        let (x, y) = (te(&x, 8), te(&y, 8));
                        let e = a.eq(x, y);
                        let l = a.ult(x, y);
                        let r = a.ite(l, mone, one);
                        acc = a.ite(e, acc, r);
                    }
                    Some(fe(acc))
                }
            }
            28 => { let p = num!(0); let mut n = 0; loop { let v = self.load_n(st, p + n, 1)?; let c = self.conc(st, &v, 8)?; if c == 0 { break; } n += 1; } Some(Val::C(n)) }
            30 => { let n = num!(2); Some(Val::C(n)) }
            31 => Some(Val::C(0)),
            32 => {
                let n = num!(0);
                match n {
                    318 => { let p = num!(1); let l = num!(2); for i in 0..l { self.store_n(st, p + i, 1, &Val::C((17 + i * 13) & 255))?; } Some(Val::C(l)) }
                    202 => { // futex: waiting gives the other thread its turn
                        let op = if args.len() > 2 { num!(2) & 127 } else { 1 };
                        if st.other.is_some() && (op == 0 || op == 9) { st.turn = true; }
                        Some(Val::C(0))
                    }
                    _ => return Err(Stop::Incomplete(format!("syscall {}", n))),
                }
            }
            39 => { let p = num!(0); let l = num!(1); for i in 0..l { self.store_n(st, p + i, 1, &Val::C((17 + i * 13) & 255))?; } Some(Val::C(l)) }
            140 => { let p = num!(0); st.clock += 1_000; let c = st.clock / 1_000; self.store_n(st, p, 4, &Val::C(c))?; Some(Val::C(0)) }
            33 => {
                // errno lives in a fixed scratch global: use a fresh object per call.
                let x = self.new_obj(st, 8, true);
                Some(Val::C(x))
            }
            34 => return Err(Stop::Viol("abort", "the process aborts".into())),
            35 => Some(Val::C(1)),
            36 => {
                let p = num!(1);
                st.clock += 1_000;
                let c = st.clock;
                self.store_n(st, p, 8, &Val::C(1_700_000_000 + c / 1_000_000_000))?;
                self.store_n(st, p + 8, 8, &Val::C(c % 1_000_000_000))?;
                Some(Val::C(0))
            }
            37 => Some(Val::C(mask64(ret.width()))),
            38 => if *ret == Ty::Void { None } else { Some(Val::C(0)) },
            40 | 41 => {
                let mut msg = String::new();
                if k == 40 {
                    // The message: either a plain string (odd second word) or a template.
                    let mut ptrs = vec![];
                    for (i, (t, _)) in args.iter().enumerate() { if *t == Ty::Ptr { if let Val::C(c) = vals[i] { ptrs.push(c); } } }
                    if ptrs.len() >= 2 && ptrs[1] & 1 == 1 { if let Ok(s) = self.read_str(st, ptrs[0], ptrs[1] >> 1) { msg = s; } }
                    else if !ptrs.is_empty() { if let Ok(o) = self.obj(st, ptrs[0], 1) { msg = o.data[ptrs[0] as u32 as usize..].iter().take(80).filter(|c| (32..127).contains(*c)).map(|c| *c as char).collect(); } }
                    if let Some(l) = ptrs.last().copied() {
                        if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(line))) = (self.load_n(st, l, 8), self.load_n(st, l + 8, 8), self.load_n(st, l + 16, 4)) {
                            if fl < 300 { if let Ok(s) = self.read_str(st, fp, fl) { let s = s.trim_end_matches('\0').to_string(); msg = format!("{} at {}:{}", msg, s, line); } }
                        }
                    }
                } else { msg = format!("{}", if name.contains("alloc") { "memory allocation failed" } else { "panic" }); }
                return Err(Stop::Viol("panic", msg));
            }
            50 | 51 | 52 | 69 | 70 | 71 => {
                let t = &args[0].0;
                if let Val::A(p) = &vals[0] {
                    let w = Self::elem(t);
                    let r: Vec<Val> = p.iter().map(|v| fe(un_intr(k, te(v, w), w))).collect();
                    Some(Val::A(Rc::new(r)))
                } else { let w = t.width(); Some(fe(un_intr(k, te(&vals[0], w), w))) }
            }
            53..=60 => {
                let t = &args[0].0;
                let w = Self::elem(t);
                if let (Val::A(p), Val::A(q)) = (&vals[0], &vals[1]) { let r: Vec<Val> = p.iter().zip(q.iter()).map(|(x, y)| fe(bin_intr(k, te(x, w), te(y, w), w))).collect(); Some(Val::A(Rc::new(r))) }
                else { Some(fe(bin_intr(k, te(&vals[0], w), te(&vals[1], w), w))) }
            }
            61..=66 => {
                let w = args[0].0.width();
                let (x, y) = (te(&vals[0], w), te(&vals[1], w));
                let (r, o) = match k {
                    61 => { let s = a.bin(Op::Add, x, y); let o = match a.cv(y) { Some(c) => { let l = a.constant(mask(w) - c, w); a.ult(l, x) } None => a.ult(s, x) }; (s, o) }
                    62 => (a.bin(Op::Sub, x, y), a.ult(x, y)),
                    63 => (a.bin(Op::Mul, x, y), a.mulo(Op::UMulO, x, y)),
                    64 | 65 => {
                        let op = if k == 64 { Op::Add } else { Op::Sub };
                        let s = a.bin(op, x, y);
                        let o = if let Some(c) = a.cv(y) {
                            let c = sx(c, w);
                            let c = if k == 64 { c } else { -c };
                            let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                            if c >= 0 { let l = a.constant((mx - c) as u128, w); if mx - c < mn { a.tt() } else { a.slt(l, x) } } else { let l = a.constant((mn - c) as u128, w); a.slt(x, l) }
                        } else {
                            let (ex, ey) = (a.sext(x, w + 1), a.sext(y, w + 1));
                            let es = a.bin(op, ex, ey);
                            let hi = a.extract(es, w, 1);
                            let lo = a.extract(es, w - 1, 1);
                            a.bin(Op::Xor, hi, lo)
                        };
                        (s, o)
                    }
                    _ => (a.bin(Op::Mul, x, y), a.mulo(Op::SMulO, x, y)),
                };
                Some(Val::A(Rc::new(vec![fe(r), fe(o)])))
            }
            67 | 68 => {
                let w = args[0].0.width();
                let (x, y, z) = (te(&vals[0], w), te(&vals[1], w), te(&vals[2], w));
                let cw = a.constant(w as u128, w);
                let s = a.bin(Op::URem, z, cw);
                let c = a.concat(x, y);
                let s2 = a.zext(s, 2 * w);
                let r = if k == 67 { let t = a.bin(Op::Shl, c, s2); a.extract(t, w, w) } else { let t = a.bin(Op::LShr, c, s2); a.extract(t, 0, w) };
                Some(fe(r))
            }
            72 | 73 => {
                let w = args[0].0.width();
                let rw = ret.width();
                let (x, y) = (te(&vals[0], w), te(&vals[1], w));
                let l = if k == 72 { a.ult(x, y) } else { a.slt(x, y) };
                let e = a.eq(x, y);
                let (z, o, m) = (a.constant(0, rw), a.constant(1, rw), a.constant(u128::MAX, rw));
                let t = a.ite(e, z, o);
                Some(fe(a.ite(l, m, t)))
            }
            74 => Some(Val::C(0)),
            75 => { let p = num!(0); let o = num!(1); let v = self.load_n(st, p.wrapping_add(o), 4)?; let v = self.conc(st, &v, 32)?; Some(Val::C(p.wrapping_add(sx(v as u128, 32) as u64))) }
            76 => Some(vals[0].clone()),
            77 => { let w = args[0].0.width(); let m = a.constant(mask(w) >> 1, w); Some(fe(a.bin(Op::And, te(&vals[0], w), m))) }
            78 | 79 => { let w = args[0].0.width(); Some(fe(a.fun(if k == 78 { Op::FpToSI } else { Op::FpToUI }, te(&vals[0], w), ret.width()))) }
            80 => { let w = args[0].0.width(); let m = a.constant(mask(w) >> 1, w); let s = a.constant(1u128 << (w - 1), w); let x = a.bin(Op::And, te(&vals[0], w), m); let y = a.bin(Op::And, te(&vals[1], w), s); Some(fe(a.bin(Op::Or, x, y))) }
            81 | 82 => {
                let w = args[0].0.width();
                let (x, y) = (te(&vals[0], w), te(&vals[1], w));
                let lt = if k == 81 { a.fcmp(Op::FLt, x, y) } else { a.fcmp(Op::FLt, y, x) };
                let (nx, ny) = (a.fun(Op::FIsNan, x, 1), a.fun(Op::FIsNan, y, 1));
                let r = a.ite(lt, x, y);
                let r = a.ite(ny, x, r);
                Some(fe(a.ite(nx, y, r)))
            }
            83 => { let m = te(&vals[1], 64); Some(fe(a.bin(Op::And, te(&vals[0], 64), m))) }
            84 | 85 | 86 => {
                let w = Self::elem(&args[0].0);
                let op = match k { 84 => Op::Or, 85 => Op::And, _ => Op::Add };
                if let Val::A(p) = &vals[0] { let mut r = te(&p[0], w); for x in &p[1..] { r = a.bin(op, r, te(x, w)); } Some(fe(r)) } else { panic!() }
            }
            87 => {
                let w = args[0].0.width();
                let m = num!(1);
                let x = te(&vals[0], w);
                let (ew, mw) = if w == 64 { (11u16, 52u16) } else { (8, 23) };
                let e = a.extract(x, mw, ew);
                let f = a.extract(x, 0, mw);
                let s = a.extract(x, w - 1, 1);
                let ns = a.not(s);
                let (ones, z, fz) = (a.constant(u128::MAX, ew), a.constant(0, ew), a.constant(0, mw));
                let emax = a.eq(e, ones);
                let ez = a.eq(e, z);
                let f0 = a.eq(f, fz);
                let nf0 = a.not(f0);
                let q = a.extract(f, mw - 1, 1);
                let nq = a.not(q);
                let nan = a.and(emax, nf0);
                let inf = a.and(emax, f0);
                let sub = a.and(ez, nf0);
                let zero = a.and(ez, f0);
                let t1 = a.not(emax); let t2 = a.not(ez); let norm = a.and(t1, t2);
                let cls = [a.and(nan, nq), a.and(nan, q), a.and(inf, s), a.and(norm, s), a.and(sub, s), a.and(zero, s), a.and(zero, ns), a.and(sub, ns), a.and(norm, ns), a.and(inf, ns)];
                let mut r = a.ff();
                for (i, c) in cls.iter().enumerate() { if m >> i & 1 == 1 { r = a.or(r, *c); } }
                Some(fe(r))
            }
            88 => {
                let w = args[0].0.width();
                let x = num!(0); let y = num!(1); let z = num!(2);
                if w == 64 { Some(Val::C(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits())) } else { return Err(Stop::Incomplete("fma".into())); }
            }
            90 => {
                let base = name.strip_prefix("llvm.").map(|s| s.split('.').next().unwrap()).unwrap_or(name);
                if args[0].0.width() != 64 { return Err(Stop::Incomplete(format!("{} on f32", base))); }
                let x = te(&vals[0], 64);
                let y = if vals.len() > 1 { te(&vals[1], 64) } else { a.constant(0, 64) };
                Some(fe(a.uf(base, x, y)))
            }
            93 => { let x = te(&vals[0], 64); let y = a.zext(te(&vals[1], 32), 64); Some(fe(a.uf("powi", x, y))) }
            91 => { let w = args[0].0.width(); Some(fe(a.fbin(Op::FRem, te(&vals[0], w), te(&vals[1], w)))) }
            92 => {
                let w = args[0].0.width();
                let b = name.strip_prefix("llvm.").unwrap_or(name);
                let op = if b.starts_with("floor") { Op::FFloor } else if b.starts_with("ceil") { Op::FCeil } else if b.starts_with("trunc") { Op::FTrunc } else if b.starts_with("roundeven") || b.starts_with("rint") || b.starts_with("nearby") { Op::FRoundE } else if b.starts_with("round") { Op::FRoundA } else { Op::FSqrt };
                Some(fe(a.fun(op, te(&vals[0], w), w)))
            }
            _ => return Err(Stop::Incomplete(format!("unmodelled {}", name))),
        };
        Ok(out)
    }
}

fn un_intr(k: u16, x: E, w: u16) -> E {
    let a = ar();
    if let Some(c) = a.cv(x) {
        let v = match k {
            50 => c.count_ones() as u128,
            51 => if c == 0 { w as u128 } else { c.trailing_zeros() as u128 },
            52 => if c == 0 { w as u128 } else { (c.leading_zeros() - (128 - w as u32)) as u128 },
            69 => { let mut r = 0u128; for i in 0..(w / 8) { r |= ((c >> (8 * i)) & 255) << (w - 8 - 8 * i); } r }
            70 => { let mut r = 0u128; for i in 0..w { r |= ((c >> i) & 1) << (w - 1 - i); } r }
            _ => { let s = sx(c, w); s.unsigned_abs() }
        };
        return a.constant(v, w);
    }
    match k {
        50 => { let mut r = a.constant(0, w); for i in 0..w { let b = a.extract(x, i, 1); let b = a.zext(b, w); r = a.bin(Op::Add, r, b); } r }
        51 => { let mut r = a.constant(w as u128, w); for i in (0..w).rev() { let b = a.extract(x, i, 1); let k = a.constant(i as u128, w); r = a.ite(b, k, r); } r }
        52 => { let mut r = a.constant(w as u128, w); for i in 0..w { let b = a.extract(x, i, 1); let k = a.constant((w - 1 - i) as u128, w); r = a.ite(b, k, r); } r }
        69 => { let mut r = a.extract(x, 0, 8); for i in 1..(w / 8) { let b = a.extract(x, i * 8, 8); r = a.concat(r, b); } r }
        70 => { let mut r = a.extract(x, 0, 1); for i in 1..w { let b = a.extract(x, i, 1); r = a.concat(r, b); } r }
        _ => { let z = a.constant(0, w); let n = a.slt(x, z); let m = a.neg(x); a.ite(n, m, x) }
    }
}

fn bin_intr(k: u16, x: E, y: E, w: u16) -> E {
    let a = ar();
    match k {
        53 => { let c = a.ult(x, y); a.ite(c, x, y) }
        54 => { let c = a.ult(y, x); a.ite(c, x, y) }
        55 => { let c = a.slt(x, y); a.ite(c, x, y) }
        56 => { let c = a.slt(y, x); a.ite(c, x, y) }
        57 => { let c = a.ult(x, y); let z = a.constant(0, w); let s = a.bin(Op::Sub, x, y); a.ite(c, z, s) }
        58 => { let s = a.bin(Op::Add, x, y); let c = a.ult(s, x); let m = a.constant(u128::MAX, w); a.ite(c, m, s) }
        _ => {
            let op = if k == 60 { Op::Add } else { Op::Sub };
            let (ex, ey) = (a.sext(x, w + 1), a.sext(y, w + 1));
            let es = a.bin(op, ex, ey);
            let s = a.bin(op, x, y);
            let hi = a.extract(es, w, 1);
            let lo = a.extract(es, w - 1, 1);
            let o = a.bin(Op::Xor, hi, lo);
            let (mn, mx) = (a.constant(1u128 << (w - 1), w), a.constant(mask(w) >> 1, w));
            let sat = a.ite(hi, mn, mx);
            a.ite(o, sat, s)
        }
    }
}
