//! Drawing on buffered displays and the text console on top of it.
use endbasic_std::console::drawing;
use endbasic_std::console::graphics::{InputOps, RasterOps};
use endbasic_std::console::*;
use endbasic_std::gfx::lcd::fonts::{Font, FONT_5X8};
use endbasic_std::gfx::lcd::*;
use endbasic_std::sound::NoopAudioOps;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

/// A display whose pixels keep the full color.
#[derive(Clone, Copy, PartialEq)]
pub struct Px([u8; 3]);
impl AsByteSlice for Px { fn as_slice(&self) -> &[u8] { &self.0 } }
struct Mem { w: usize, h: usize, px: Rc<RefCell<Vec<[u8; 3]>>>, lossy: bool }
impl Lcd for Mem {
    type Pixel = Px;
    fn info(&self) -> (LcdSize, usize) { (LcdSize { width: self.w, height: self.h }, 3) }
    fn decode(&self, p: &[u8]) -> RGB { (p[0], p[1], p[2]) }
    fn encode(&self, c: RGB) -> Px { if self.lossy { Px([c.0 & 0x80, c.1 & 0x80, c.2 & 0x80]) } else { Px([c.0, c.1, c.2]) } }
    fn set_data(&mut self, a: LcdXY, b: LcdXY, data: &[u8]) -> io::Result<()> {
        rt::check((a.x <= b.x) & (a.y <= b.y) & (b.x < self.w) & (b.y < self.h), "updates stay on the display");
        rt::check(data.len() == 3 * (b.x - a.x + 1) * (b.y - a.y + 1), "updates are complete");
        let mut px = self.px.borrow_mut();
        let mut k = 0;
        for y in a.y..=b.y { for x in a.x..=b.x { px[y * self.w + x] = [data[k], data[k + 1], data[k + 2]]; k += 3; } }
        Ok(())
    }
}
type Shot = Rc<RefCell<Vec<[u8; 3]>>>;
fn lcd(w: usize, h: usize, lossy: bool) -> (BufferedLcd<Mem>, Shot) {
    let px = Rc::new(RefCell::new(vec![[0; 3]; w * h]));
    let mut l = BufferedLcd::new(Mem { w, h, px: px.clone(), lossy }, &FONT_5X8);
    l.set_draw_color(INK);
    (l, px)
}
const INK: RGB = (255, 255, 255);
/// A display that is set up before anything is chosen.
struct Pad { w: usize, h: usize, l: std::mem::ManuallyDrop<BufferedLcd<Mem>>, px: Shot }
impl Pad {
    fn new(w: usize, h: usize) -> Pad { let (l, px) = lcd(w, h, false); Pad { w, h, l: std::mem::ManuallyDrop::new(l), px } }
    /// The pixels drawn by `f`, with or without syncing.
    fn shot(mut self, f: impl Fn(&mut BufferedLcd<Mem>)) -> Vec<bool> {
        let l = &mut *self.l;
        l.set_sync(rt::choose(2) == 1);
        f(l);
        l.present_canvas().unwrap();
        let r: Vec<bool> = self.px.borrow().iter().map(|p| p[0] != 0).collect();
        // What is read back is what is shown.
        for y in 0..self.h { for x in 0..self.w { rt::check(l.peek_pixel(PixelsXY::new(x as i16, y as i16)).unwrap() == Some(if r[y * self.w + x] { 15 } else { 0 }), "the display shows what can be read back"); } }
        r
    }
    /// The pixels drawn by `f` as a reference, without checking anything else.
    fn full(mut self, f: impl Fn(&mut BufferedLcd<Mem>)) -> Shot {
        let l = &mut *self.l;
        l.set_sync(false);
        f(l);
        l.present_canvas().unwrap();
        self.px.clone()
    }
}
fn upto(lo: i16, hi: i16) -> i16 { lo + rt::choose((hi - lo + 1) as usize) as i16 }
fn xy(x: i16, y: i16) -> PixelsXY { PixelsXY::new(x, y) }

/// Single pixels and filled rectangles at any coordinates.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pixels(case: u32) {
    let (w, h) = (6, 5);
    let p = Pad::new(w, h);
    let (mut x, mut y) = (rt::i16_(), rt::i16_());
    let (mut sw, mut sh) = (rt::u16_(), rt::u16_());
    // Rectangles start anywhere or have any size, in one direction at a time.
    let at = || rt::pick(&[i16::MIN, -2, 0, 3, 5, i16::MAX]);
    match case { 1 => { y = 1; sw = rt::pick(&[1, 3, 65535]); sh = 9; } 3 => { x = 2; sh = rt::pick(&[1, 3, 65535]); sw = 1; } 4 => { x = at(); y = 3; sh = 1; } 5 => { y = at(); x = 3; sw = 9; } _ => {} }
    rt::assume((sw > 0) & (sh > 0));
    let px = match case {
        0 => p.shot(|l| l.draw_pixel(xy(x, y)).unwrap()),
        1 | 3..=5 => p.shot(|l| l.draw_rect_filled(xy(x, y), SizeInPixels::new(sw, sh)).unwrap()),
        _ => { let p = p.l.peek_pixel(xy(x, y)).unwrap(); rt::check(p.is_some() == ((x >= 0) & (y >= 0) & ((x as usize) < w) & ((y as usize) < h)), "pixels outside cannot be read"); return; }
    };
    for b in 0..h as i32 { for a in 0..w as i32 {
        let (x, y) = (x as i32, y as i32);
        let inside = if case == 0 { (a == x) & (b == y) } else { (a >= x) & (a < x + sw as i32) & (b >= y) & (b < y + sh as i32) };
        rt::check(px[b as usize * w + a as usize] == inside, "exactly the given pixels are drawn");
    } }
    rt::cover("drawn");
}

/// Lines: close to the ideal line, without gaps.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lines(case: u32) {
    let n = 6i16;
    let p = Pad::new(n as usize, n as usize);
    let (x1, y1, x2, y2) = (upto(0, n - 1), upto(0, n - 1), upto(0, n - 1), case as i16 % n);
    let px = p.shot(|l| l.draw_line(xy(x1, y1), xy(x2, y2)).unwrap());
    line_ok(&px, n as i64, x1 as i64, y1 as i64, x2 as i64, y2 as i64, true);
    rt::cover("line");
}
fn line_ok(px: &[bool], n: i64, x1: i64, y1: i64, x2: i64, y2: i64, whole: bool) {
    let (dx, dy) = (x2 - x1, y2 - y1);
    let major = dx.abs().max(dy.abs());
    let mut count = 0;
    for b in 0..n { for a in 0..n {
        if px[(b * n + a) as usize] {
            count += 1;
            rt::check(((dy * (a - x1) - dx * (b - y1)) * 2).abs() <= major, "lines are drawn at the closest pixels");
            rt::check(a >= x1.min(x2) && a <= x1.max(x2) && b >= y1.min(y2) && b <= y1.max(y2), "lines end where asked");
        }
    } }
    if whole {
        rt::check(count == major + 1, "lines have no gaps");
        rt::check(px[(y1 * n + x1) as usize] && px[(y2 * n + x2) as usize], "lines start and end where asked");
    }
}

/// Shapes that leave the screen show exactly the part that is inside. Case: shape and a coordinate.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_clip(case: u32) {
    let (n, m) = (4i16, 4i16);
    let d = 12;
    let full = (n + 2 * d) as usize;
    let (one, two) = (Pad::new(n as usize, n as usize), Pad::new(full, full));
    let shape = case / 4;
    let c = |k: u32| if k == 0 { [-3, -1, 2, 5][case as usize % 4] } else if shape < 6 { rt::pick(&[-3, -1, 0, 2, 3, 6]) } else { rt::pick(&[-2, 1, 5]) };
    let (x1, y1) = (c(0), c(1));
    let r = if shape < 2 { rt::choose(6) as u16 } else { 0 };
    let (x2, y2) = if shape >= 2 { (c(1), c(1)) } else { (0, 0) };
    let (x3, y3) = if shape >= 6 { (rt::pick(&[-2, 1, 4]), rt::pick(&[-1, 2])) } else { (0, 0) };
    let go = |l: &mut BufferedLcd<Mem>, d: i16| {
        let p = |x: i16, y: i16| xy(x + d, y + d);
        let (a, b, q) = (p(x1, y1), p(x2, y2), p(x3, y3));
        let (lo, size) = (p(x1.min(x2), y1.min(y2)), SizeInPixels::new((x1 - x2).unsigned_abs() + 1, (y1 - y2).unsigned_abs() + 1));
        match shape {
            0 => l.draw_circle(a, r).unwrap(),
            1 => l.draw_circle_filled(a, r).unwrap(),
            2 => l.draw_line(a, b).unwrap(),
            3 => l.draw_rect(lo, size).unwrap(),
            4 => l.draw_rect_filled(lo, size).unwrap(),
            5 => l.draw_poly(&[a, b]).unwrap(),
            6 => l.draw_tri(a, b, q).unwrap(),
            7 => l.draw_tri_filled(a, b, q).unwrap(),
            _ => l.draw_poly_filled(&[a, b, q, p(0, 3)]).unwrap(),
        }
    };
    let part = one.shot(|l| go(l, 0));
    let px = two.full(|l| go(l, d));
    for b in 0..m { for a in 0..n { rt::check(part[(b * n + a) as usize] == (px.borrow()[(b + d) as usize * full + (a + d) as usize][0] != 0), "the part of a shape that is on the screen is drawn"); } }
    rt::cover("clipped");
}

/// Circles.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_circles(case: u32) {
    let r = case as i64;
    let n = 2 * r.max(1) + 3;
    let c = r.max(1) + 1;
    let p = xy(c as i16, c as i16);
    let o = Pad::new(n as usize, n as usize).shot(|l| l.draw_circle(p, r as u16).unwrap());
    let f = Pad::new(n as usize, n as usize).shot(|l| l.draw_circle_filled(p, r as u16).unwrap());
    let at = |v: &Vec<bool>, x: i64, y: i64| v[((c + y) * n + c + x) as usize];
    let m = c.min(n - 1 - c);
    for y in -m..=m {
        let (mut lo, mut hi) = (i64::MAX, i64::MIN);
        for x in -m..=m {
            let k = at(&o, x, y);
            for (a, b) in [(-x, y), (x, -y), (y, x)] { rt::check(at(&o, a, b) == k && at(&f, a, b) == at(&f, x, y), "circles are symmetric"); }
            if k {
                lo = lo.min(x); hi = hi.max(x);
                let d = 4 * (x * x + y * y);
                let e = 2 * (r - 1);
                rt::check(d <= (e + 2) * (e + 2) && (e < 2 || d >= (e - 2) * (e - 2)), "circles keep their distance to the center");
            }
        }
        for x in -m..=m { rt::check(at(&f, x, y) == (x >= lo && x <= hi), "filled circles are their outline and what it contains"); }
    }
    let count = o.iter().filter(|b| **b).count();
    rt::check(if r == 0 { count == 0 } else { count > 0 && at(&o, r - 1, 0) }, "circles have the given radius");
}

/// Filled triangles and polygons against the exact area. Case: third corner.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_area(case: u32) {
    let n = 5i64;
    let (x3, y3) = (case as i16 % 3 * 2, case as i16 / 3 % 3 * 2);
    let (one, two) = (Pad::new(5, 5), Pad::new(5, 5));
    let (x1, y1, x2, y2) = (upto(0, 4), upto(0, 4), upto(0, 4), upto(0, 4));
    let pts = [xy(x1, y1), xy(x2, y2), xy(x3, y3)];
    let poly = case >= 9;
    let f = one.shot(|l| if poly { l.draw_poly_filled(&pts).unwrap() } else { l.draw_tri_filled(pts[0], pts[1], pts[2]).unwrap() });
    let px = two.full(|l| if poly { l.draw_poly(&pts).unwrap() } else { l.draw_tri(pts[0], pts[1], pts[2]).unwrap() });
    let o: Vec<bool> = px.borrow().iter().map(|p| p[0] != 0).collect();
    let side = |a: PixelsXY, b: PixelsXY, x: i64, y: i64| (b.x as i64 - a.x as i64) * (y - a.y as i64) - (b.y as i64 - a.y as i64) * (x - a.x as i64);
    let area = side(pts[0], pts[1], x3 as i64, y3 as i64);
    for y in 0..n { for x in 0..n {
        let k = (y * n + x) as usize;
        if o[k] { rt::check(f[k], "filled areas contain their outline"); }
        let s = [side(pts[0], pts[1], x, y), side(pts[1], pts[2], x, y), side(pts[2], pts[0], x, y)];
        let within = area != 0 && (s.iter().all(|v| *v >= 0) || s.iter().all(|v| *v <= 0));
        if within { rt::check(f[k], "areas are filled"); }
        // Borders are rounded to pixels.
        let near = (0..3).any(|e| { let (a, b) = (pts[e], pts[(e + 1) % 3]); s[e].abs() <= (b.x as i64 - a.x as i64).abs().max((b.y as i64 - a.y as i64).abs()) });
        let inbox = x >= x1.min(x2).min(x3) as i64 && x <= x1.max(x2).max(x3) as i64 && y >= y1.min(y2).min(y3) as i64 && y <= y1.max(y2).max(y3) as i64;
        if f[k] && !o[k] { rt::check(within || inbox && near, "nothing outside of an area is filled"); }
    } }
    rt::cover("filled");
}

/// The largest coordinates there are.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_far(case: u32) {
    let n = 5;
    let far = |k: usize| [i16::MIN, -20000, -3, 2, 20000, i16::MAX][k];
    let pick = || far(rt::choose(6));
    let (l, px) = lcd(n, n, false);
    let mut l = std::mem::ManuallyDrop::new(l);
    l.set_sync(false);
    let (x1, y1) = (far(case as usize % 6), pick());
    match case / 6 {
        0 => {
            let (x2, y2) = (pick(), pick());
            l.draw_line(xy(x1, y1), xy(x2, y2)).unwrap();
            l.present_canvas().unwrap();
            let v: Vec<bool> = px.borrow().iter().map(|p| p[0] != 0).collect();
            line_ok(&v, n as i64, x1 as i64, y1 as i64, x2 as i64, y2 as i64, false);
        }
        1 => {
            let r = rt::pick(&[2, 3, 30, 20000]);
            let o = l.draw_circle(xy(x1, y1), r);
            let f = if r < 20000 { l.draw_circle_filled(xy(x1, y1), r) } else { Err(io::Error::other("")) };
            rt::check(o.is_ok() == (r < 20000) && f.is_ok() == (r < 20000), "circles that are too big are rejected");
            l.present_canvas().unwrap();
            for b in 0..n as i64 { for a in 0..n as i64 {
                let (dx, dy) = (a - x1 as i64, b - y1 as i64);
                if px.borrow()[b as usize * n + a as usize][0] != 0 { rt::check(dx * dx + dy * dy <= (r as i64) * (r as i64), "circles keep their distance to the center"); }
            } }
        }
        2 => {
            let (w, h) = (rt::pick(&[1, 2, 30000, u16::MAX]), rt::pick(&[1, 5, u16::MAX]));
            RasterOps::draw_rect(&mut *l, xy(x1, y1), SizeInPixels::new(w, h)).unwrap();
            l.present_canvas().unwrap();
            let (x2, y2) = ((x1 as i64 + w as i64 - 1).min(32767), (y1 as i64 + h as i64 - 1).min(32767));
            for b in 0..n as i64 { for a in 0..n as i64 {
                let (x1, y1) = (x1 as i64, y1 as i64);
                let on = (a == x1 || a == x2) && b >= y1 && b <= y2 || (b == y1 || b == y2) && a >= x1 && a <= x2;
                rt::check((px.borrow()[b as usize * n + a as usize][0] != 0) == on, "rectangles are drawn at their borders");
            } }
        }
        _ => {
            // Slivers along a diagonal of the whole plane, and areas that are not too big.
            let near = |k: usize| [-120, -40, -3, 2, 30, 100][k];
            let [(x1, y1), (x2, y2), (x3, y3)] = match case {
                18 => [(i16::MIN, i16::MIN), (i16::MAX, i16::MAX), (i16::MAX, i16::MAX - 3)],
                19 => [(i16::MIN, i16::MAX), (i16::MIN + 3, i16::MAX), (i16::MAX, i16::MIN)],
                _ => [(near(case as usize - 20), near(rt::choose(6))), (near(rt::choose(6)), rt::pick(&[-100, 4])), (rt::pick(&[-110, 3, 90]), 7)],
            };
            l.draw_tri_filled(xy(x1, y1), xy(x2, y2), xy(x3, y3)).unwrap();
            l.present_canvas().unwrap();
            let p = [(x1 as i128, y1 as i128), (x2 as i128, y2 as i128), (x3 as i128, y3 as i128)];
            let side = |a: (i128, i128), b: (i128, i128), x: i128, y: i128| (b.0 - a.0) * (y - a.1) - (b.1 - a.1) * (x - a.0);
            let area = side(p[0], p[1], p[2].0, p[2].1);
            for y in 0..n as i128 { for x in 0..n as i128 {
                let s = [side(p[0], p[1], x, y), side(p[1], p[2], x, y), side(p[2], p[0], x, y)];
                let within = area != 0 && (s.iter().all(|v| *v >= 0) || s.iter().all(|v| *v <= 0));
                let on = px.borrow()[y as usize * n + x as usize][0] != 0;
                if within { rt::check(on, "areas are filled"); }
                else if on {
                    // At most one pixel away from an edge.
                    let e = [(p[0], p[1], s[0]), (p[1], p[2], s[1]), (p[2], p[0], s[2])];
                    rt::check(e.iter().any(|(a, b, s)| { let m = (b.0 - a.0).abs().max((b.1 - a.1).abs()); s.abs() <= m }), "nothing outside of an area is filled");
                }
            } }
        }
    }
    rt::cover("far");
}

/// Filling a region of a small picture with any color.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_fill(case: u32) {
    let (w, h) = (3usize, 3usize);
    let lossy = case % 2 == 1;
    let (mut l, px) = lcd(w, h, lossy);
    l.set_sync(case / 2 % 2 == 1);
    let mut pic = vec![0u8; 9];
    for (k, p) in pic.iter_mut().enumerate() {
        if rt::choose(2) == 1 { *p = 1; l.set_draw_color((255, 0, 0)); l.draw_pixel(xy((k % 3) as i16, (k / 3) as i16)).unwrap(); }
    }
    let color = rt::pick(&[0u8, 16, 9, 196, 12, 1, 255]);
    let rgb = ansi_color_to_rgb(color);
    let (sx, sy) = (rt::pick(&[-1i16, 0, 1, 2, 3]), case as i16 / 4);
    l.set_draw_color(rgb);
    drawing::bucket_fill(&mut l, xy(sx, sy), color).unwrap();
    l.present_canvas().unwrap();
    let enc = |c: RGB| if lossy { [c.0 & 0x80, c.1 & 0x80, c.2 & 0x80] } else { [c.0, c.1, c.2] };
    let mut want: Vec<[u8; 3]> = pic.iter().map(|p| enc(if *p == 1 { (255, 0, 0) } else { (0, 0, 0) })).collect();
    if sx >= 0 && sx < 3 && sy >= 0 && sy < 3 {
        // The connected region, by propagation.
        let seed = sy as usize * 3 + sx as usize;
        let mut region = [false; 9];
        region[seed] = true;
        for _ in 0..9 { for k in 0..9 { if pic[k] == pic[seed] && !region[k] {
            let (x, y) = (k % 3, k / 3);
            region[k] = x > 0 && region[k - 1] || x < 2 && region[k + 1] || y > 0 && region[k - 3] || y < 2 && region[k + 3];
        } } }
        for k in 0..9 { if region[k] { want[k] = enc(rgb); } }
    }
    rt::check(*px.borrow() == want, "exactly the connected region is filled");
    std::mem::forget(l);
    rt::cover("filled");
}

// ---------------------------------------------------------------------------- text console

struct NoKeys;
#[async_trait::async_trait(?Send)]
impl InputOps for NoKeys {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> { Ok(None) }
    async fn read_key(&mut self) -> io::Result<Key> { Ok(Key::EofOrDelete) }
}

/// A font of 2x2 pixels whose glyphs differ for 'a' to 'd', '?' and blanks.
static TINY: Font = Font { name: "tiny", glyph_size: LcdSize { width: 2, height: 2 }, stride: 1, data: &{
    let mut d = [0u8; 95 * 2];
    let mut k = 1;
    while k < 95 { d[2 * k] = if k % 2 == 1 { 0x80 } else { 0x40 }; d[2 * k + 1] = if k / 2 % 2 == 1 { 0xc0 } else { 0x40 }; k += 1; }
    d
} };
fn glyph(c: char, x: usize, y: usize) -> bool {
    let c = if c >= ' ' && c <= '~' { c } else { '?' };
    TINY.data[(c as usize - 32) * 2 + y] >> (7 - x) & 1 == 1
}

/// What the screen must show.
struct Screen { w: usize, h: usize, cols: usize, rows: usize, px: Vec<RGB>, cx: usize, cy: usize, fg: RGB, bg: RGB, ansi: (Option<u8>, Option<u8>), visible: bool, shown: Option<(usize, usize, RGB)>, alt: Option<(Vec<RGB>, usize, usize, RGB, RGB, (Option<u8>, Option<u8>))> }
impl Screen {
    fn rect(&mut self, x: usize, y: usize, w: usize, h: usize, c: RGB) { for b in y..(y + h).min(self.h) { for a in x..(x + w).min(self.w) { self.px[b * self.w + a] = c; } } }
    fn cursor(&mut self) { self.shown = if self.visible && self.cx < self.cols { Some((self.cx, self.cy, self.fg)) } else { None }; }
    fn newline(&mut self) {
        self.cx = 0;
        if self.cy + 1 < self.rows { self.cy += 1; return; }
        let th = self.rows * 2;
        for y in 0..th - 2 { for x in 0..self.w { self.px[y * self.w + x] = self.px[(y + 2) * self.w + x]; } }
        let (w, h, bg) = (self.w, self.h, self.bg);
        self.rect(0, th - 2, w, h - (th - 2), bg);
    }
    fn text(&mut self, s: &str) {
        for c in s.chars() {
            let c = if c.is_control() { ' ' } else { c };
            if self.cx == self.cols { self.newline(); }
            for y in 0..2 { for x in 0..2 { let c = if glyph(c, x, y) { self.fg } else { self.bg }; self.px[(self.cy * 2 + y) * self.w + self.cx * 2 + x] = c; } }
            self.cx += 1;
        }
    }
    fn clear(&mut self) { let (w, h, bg) = (self.w, self.h, self.bg); self.rect(0, 0, w, h, bg); self.cx = 0; self.cy = 0; }
    fn seen(&self) -> Vec<[u8; 3]> {
        let mut p = self.px.clone();
        if let Some((x, y, c)) = self.shown { for b in 0..2 { for a in 0..2 { p[(y * 2 + b) * self.w + x * 2 + a] = c; } } }
        p.iter().map(|c| [c.0, c.1, c.2]).collect()
    }
}

/// Sequences of console operations. Case: screen, syncing and the first operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_console(case: u32) {
    // 4x3 characters, with and without leftover pixels, and a single line.
    let screen = if case >= 32 { 2 } else { case % 2 };
    let (w, h, rows) = [(8, 6, 3), (9, 7, 3), (9, 3, 1)][screen as usize];
    let first = if case >= 32 { case - 32 } else { case / 2 };
    let px = Rc::new(RefCell::new(vec![[0; 3]; w * h]));
    let l = BufferedLcd::new(Mem { w, h, px: px.clone(), lossy: false }, &TINY);
    let mut c = GraphicsConsole::new(NoKeys, l, NoopAudioOps, None, None).unwrap();
    let (fg, bg) = (ansi_color_to_rgb(7), ansi_color_to_rgb(0));
    let mut s = Screen { w, h, cols: 4, rows, px: vec![bg; w * h], cx: 0, cy: 0, fg, bg, ansi: (None, None), visible: true, shown: None, alt: None };
    s.cursor();
    rt::check(c.size_chars().unwrap() == CharsXY::new(4, rows as u16), "the screen has as many characters as fit");
    // Something to be moved around.
    if rt::choose(2) == 1 { c.print("abcd").unwrap(); s.text("abcd"); s.newline(); c.write("dcab").unwrap(); s.text("dcab"); s.cursor(); }
    let mut sync = true;
    for step in 0..if screen == 2 { 3 } else { 4 } {
        let op = if step == 0 { first as usize } else { rt::choose(16) };
        match op {
            0 => { c.write("ab").unwrap(); s.text("ab"); s.cursor(); }
            1 => { let t = "abcdab"; c.write(t).unwrap(); s.text(t); s.cursor(); }
            2 => { c.print("c").unwrap(); s.text("c"); s.newline(); s.cursor(); }
            3 => { let t = ["dcbadcba", "a\tb\u{7}c", "aéb", ""][if step == 0 { rt::choose(4) } else { 0 }]; c.print(t).unwrap(); s.text(t); s.newline(); s.cursor(); }
            4 => { let (x, y) = if step == 0 { (rt::choose(4), rt::choose(rows)) } else { let (x, y) = rt::pick(&[(0, 2), (3, 1), (2, 2)]); (x, y.min(rows - 1)) }; c.locate(CharsXY::new(x as u16, y as u16)).unwrap(); s.cx = x; s.cy = y; s.cursor(); }
            5 => { let d = if s.cx == 0 { 1 } else { -1 }; c.move_within_line(d).unwrap(); s.cx = (s.cx as i16 + d) as usize; s.cursor(); }
            6 => { c.clear(ClearType::All).unwrap(); s.clear(); s.cursor(); }
            7 => { c.clear(ClearType::CurrentLine).unwrap(); let (y, bg) = (s.cy * 2, s.bg); s.rect(0, y, w, 2, bg); s.cx = 0; s.cursor(); }
            8 => { c.clear(ClearType::PreviousChar).unwrap(); if s.cx > 0 { s.cx -= 1; let (x, y, bg) = (s.cx * 2, s.cy * 2, s.bg); s.rect(x, y, 2, 2, bg); } s.cursor(); }
            9 => { c.clear(ClearType::UntilNewLine).unwrap(); let (x, y, bg) = (s.cx * 2, s.cy * 2, s.bg); s.rect(x, y, w, 2, bg); s.cursor(); }
            10 => { c.hide_cursor().unwrap(); s.visible = false; s.cursor(); }
            11 => { c.show_cursor().unwrap(); if !s.visible { s.visible = true; s.cursor(); } }
            12 => {
                let r = c.enter_alt();
                rt::check(r.is_ok() == s.alt.is_none(), "the alternate screen does not nest");
                if r.is_ok() { s.alt = Some((s.px.clone(), s.cx, s.cy, s.fg, s.bg, s.ansi)); s.clear(); s.cursor(); }
            }
            13 => {
                let r = c.leave_alt();
                rt::check(r.is_ok() == s.alt.is_some(), "only the alternate screen can be left");
                if let Some((p, x, y, fg, bg, a)) = s.alt.take() { s.px = p; s.cx = x; s.cy = y; s.fg = fg; s.bg = bg; s.ansi = a; s.cursor(); }
            }
            14 => { let (f, b) = if step == 0 { rt::pick(&[(Some(9), Some(12)), (None, Some(3)), (Some(0), None)]) } else { (Some(9), Some(12)) }; c.set_color(f, b).unwrap(); s.ansi = (f, b); s.fg = ansi_color_to_rgb(f.unwrap_or(7)); s.bg = ansi_color_to_rgb(b.unwrap_or(0)); }
            _ => { sync = !sync; rt::check(c.set_sync(sync).unwrap() != sync, "syncing reports what it was"); }
        }
        rt::check(c.color() == s.ansi, "the colors are those that were set");
        if sync { rt::check(*px.borrow() == s.seen(), "the screen shows the text"); }
    }
    c.set_sync(true).unwrap();
    rt::check(*px.borrow() == s.seen(), "the screen shows the text");
    std::mem::forget(c);
    rt::cover("shown");
}

/// A display that only remembers what it is asked to draw.
#[derive(Clone, Default)]
struct Rec(Rc<RefCell<(RGB, Vec<(u8, Vec<i64>, RGB)>)>>);
impl Rec { fn op(&self, k: u8, v: Vec<i64>) -> io::Result<()> { let mut r = self.0.borrow_mut(); let c = r.0; r.1.push((k, v, c)); Ok(()) } }
fn flat(ps: &[PixelsXY]) -> Vec<i64> { ps.iter().flat_map(|p| [p.x as i64, p.y as i64]).collect() }
impl RasterOps for Rec {
    type ID = ();
    fn get_info(&self) -> endbasic_std::console::graphics::RasterInfo { endbasic_std::console::graphics::RasterInfo { size_pixels: SizeInPixels::new(640, 480), glyph_size: SizeInPixels::new(8, 16), size_chars: CharsXY::new(80, 30) } }
    fn set_draw_color(&mut self, c: RGB) { self.0.borrow_mut().0 = c; }
    fn clear(&mut self) -> io::Result<()> { Ok(()) }
    fn present_canvas(&mut self) -> io::Result<()> { self.op(0, vec![]) }
    fn peek_pixel(&self, _: PixelsXY) -> io::Result<Option<u8>> { Ok(None) }
    fn read_pixels(&mut self, _: PixelsXY, _: SizeInPixels) -> io::Result<()> { Ok(()) }
    fn put_pixels(&mut self, _: PixelsXY, _: &()) -> io::Result<()> { Ok(()) }
    fn move_pixels(&mut self, _: PixelsXY, _: PixelsXY, _: SizeInPixels) -> io::Result<()> { Ok(()) }
    fn write_text(&mut self, _: PixelsXY, _: &str) -> io::Result<()> { Ok(()) }
    fn draw_circle(&mut self, c: PixelsXY, r: u16) -> io::Result<()> { self.op(1, vec![c.x as i64, c.y as i64, r as i64]) }
    fn draw_circle_filled(&mut self, c: PixelsXY, r: u16) -> io::Result<()> { self.op(2, vec![c.x as i64, c.y as i64, r as i64]) }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> { self.op(3, flat(&[a, b])) }
    fn draw_pixel(&mut self, a: PixelsXY) -> io::Result<()> { self.op(4, flat(&[a])) }
    fn draw_poly(&mut self, p: &[PixelsXY]) -> io::Result<()> { self.op(5, flat(p)) }
    fn draw_poly_filled(&mut self, p: &[PixelsXY]) -> io::Result<()> { self.op(6, flat(p)) }
    fn draw_rect(&mut self, a: PixelsXY, s: SizeInPixels) -> io::Result<()> { self.op(7, vec![a.x as i64, a.y as i64, s.width as i64, s.height as i64]) }
    fn draw_rect_filled(&mut self, a: PixelsXY, s: SizeInPixels) -> io::Result<()> { self.op(8, vec![a.x as i64, a.y as i64, s.width as i64, s.height as i64]) }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> { self.op(9, flat(&[a, b, c])) }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> { self.op(10, flat(&[a, b, c])) }
}

/// What the console asks its display to draw, for all coordinates. Case: the shape.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_asked(case: u32) {
    let rec = Rec::default();
    let mut c = std::mem::ManuallyDrop::new(GraphicsConsole::new(NoKeys, rec.clone(), NoopAudioOps, None, None).unwrap());
    c.hide_cursor().unwrap();
    c.set_color(Some(9), Some(12)).unwrap();
    rec.0.borrow_mut().1.clear();
    let filled = case % 2 == 1;
    let p = || { let x = rt::i16_(); xy(x, rt::i16_()) };
    let (a, b, d) = (if case / 2 == 4 { xy(-7, 9) } else { p() }, p(), p());
    let (k, v): (u8, Vec<i64>) = match case / 2 {
        0 => {
            if filled { c.draw_rect_filled(a, b).unwrap(); } else { c.draw_rect(a, b).unwrap(); }
            let (w, h) = ((a.x as i64 - b.x as i64).abs(), (a.y as i64 - b.y as i64).abs());
            let v = vec![(a.x as i64).min(b.x as i64), (a.y as i64).min(b.y as i64), w, h];
            if (w == 0) | (h == 0) { (3, flat(&[a, b])) } else { (7 + filled as u8, v) }
        }
        1 | 2 => {
            // Two corners are given, the other one is anywhere.
            let a = rt::pick(&[xy(0, 0), xy(i16::MIN, i16::MIN), xy(i16::MAX, 5)]);
            let q = rt::pick(&[xy(i16::MAX, i16::MAX), xy(2, 2), xy(i16::MIN, i16::MAX), xy(3, 0)]);
            let (b, d) = if case / 2 == 1 { (q, d) } else { (b, q) };
            if filled { c.draw_tri_filled(a, b, d).unwrap(); } else { c.draw_tri(a, b, d).unwrap(); }
            let (ax, ay, bx, by) = (b.x as i64 - a.x as i64, b.y as i64 - a.y as i64, d.x as i64 - a.x as i64, d.y as i64 - a.y as i64);
            if ax * by == ay * bx { (0, vec![]) } else { (9 + filled as u8, flat(&[a, b, d])) }
        }
        3 => {
            if filled { let r = rt::u16_(); c.draw_circle_filled(a, r).unwrap(); (2, vec![a.x as i64, a.y as i64, r as i64]) } else { c.draw_line(a, b).unwrap(); (3, flat(&[a, b])) }
        }
        _ => {
            let n = rt::choose(6);
            let all = [a, b, d, a, b];
            let v = &all[..n];
            if filled { c.draw_poly_filled(v).unwrap(); } else { c.draw_poly(v).unwrap(); }
            let same = v.iter().all(|q| (q.x == a.x) & (q.y == a.y));
            match n {
                0 => (0, vec![]),
                1 => (4, flat(v)),
                2 => (3, flat(v)),
                3 => { rt::assume((a.y == b.y) & (a.y != d.y)); if a.x == b.x { (0, vec![]) } else { (9 + filled as u8, flat(v)) } }
                _ if same => (0, vec![]),
                _ => (5 + filled as u8, flat(v)),
            }
        }
    };
    let r = rec.0.borrow();
    let draws: Vec<&(u8, Vec<i64>, RGB)> = r.1.iter().filter(|e| e.0 != 0).collect();
    if k == 0 { rt::check(draws.is_empty(), "shapes without any extent are not drawn"); rt::cover("nothing"); return; }
    rt::check(draws.len() == 1 && draws[0].0 == k && draws[0].1.len() == v.len(), "every shape is drawn once");
    let mut same = true;
    for i in 0..v.len() { same &= draws[0].1[i] == v[i]; }
    rt::check(same, "shapes are drawn where they were asked for");
    rt::check(draws[0].2 == ansi_color_to_rgb(9), "shapes are drawn in the current color");
    rt::check(r.1.last().unwrap().0 == 0, "what is drawn is shown");
    rt::cover("asked");
}

/// Everything that draws, through the console. Case: the shape.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shapes(case: u32) {
    let (n, bg) = (5usize, ansi_color_to_rgb(0));
    let px = Rc::new(RefCell::new(vec![[0; 3]; n * n]));
    let l = BufferedLcd::new(Mem { w: n, h: n, px: px.clone(), lossy: false }, &TINY);
    let mut c = std::mem::ManuallyDrop::new(GraphicsConsole::new(NoKeys, l, NoopAudioOps, None, None).unwrap());
    c.hide_cursor().unwrap();
    let (raw, want) = lcd(n, n, false);
    let mut raw = std::mem::ManuallyDrop::new(raw);
    let ink = |v: bool| { let k = if v { ansi_color_to_rgb(9) } else { bg }; [k.0, k.1, k.2] };
    c.set_color(Some(9), Some(0)).unwrap();
    raw.set_draw_color(ansi_color_to_rgb(9));
    let sync = rt::choose(2) == 1;
    c.set_sync(sync).unwrap();
    let show = |c: &mut GraphicsConsole<NoKeys, BufferedLcd<Mem>, NoopAudioOps>| { if sync { c.sync_now().unwrap(); } else { c.set_sync(true).unwrap(); } };
    match case {
        _ => {
            let near = [-2i16, 0, 1, 3, 6];
            let far = [i16::MIN, 2, i16::MAX];
            let at = |k: &[i16]| { let x = rt::pick(k); xy(x, rt::pick(k)) };
            // Up to five points.
            let wide = case >= 12;
            let few = [0i16, 3];
            let some: &[i16] = if wide { &far } else { &near };
            let p1 = at(some);
            let side = |a: i32, b: i32| (a - b).unsigned_abs().min(65535) as u16;
            match case {
                4 => { c.draw_pixel(p1).unwrap(); raw.draw_pixel(p1).unwrap(); }
                5 | 6 => {
                    let r = rt::pick(&[0u16, 1, 2, 7]);
                    if case == 5 { c.draw_circle(p1, r).unwrap(); RasterOps::draw_circle(&mut *raw, p1, r).unwrap(); } else { c.draw_circle_filled(p1, r).unwrap(); RasterOps::draw_circle_filled(&mut *raw, p1, r).unwrap(); }
                }
                7 | 8 | 12 | 13 => {
                    let p2 = at(some);
                    let (w, h) = (side(p1.x as i32, p2.x as i32), side(p1.y as i32, p2.y as i32));
                    let lo = xy(p1.x.min(p2.x), p1.y.min(p2.y));
                    match case % 5 {
                        2 => { c.draw_line(p1, p2).unwrap(); RasterOps::draw_line(&mut *raw, p1, p2).unwrap(); }
                        _ => { c.draw_rect(p1, p2).unwrap(); if w == 0 || h == 0 { RasterOps::draw_line(&mut *raw, p1, p2).unwrap(); } else { RasterOps::draw_rect(&mut *raw, lo, SizeInPixels::new(w, h)).unwrap(); } }
                    }
                }
                9 | 10 | 14 => {
                    let (p2, p3) = (at(if wide { &[i16::MIN, i16::MAX] } else { &near[..3] }), at(if wide { &[i16::MAX] } else { &near[2..] }));
                    let (ax, ay, bx, by) = (p2.x as i64 - p1.x as i64, p2.y as i64 - p1.y as i64, p3.x as i64 - p1.x as i64, p3.y as i64 - p1.y as i64);
                    let flat = ax * by == ay * bx;
                    if case == 10 { c.draw_tri_filled(p1, p2, p3).unwrap(); if !flat { RasterOps::draw_tri_filled(&mut *raw, p1, p2, p3).unwrap(); } }
                    else if rt::choose(2) == 0 { c.draw_poly(&[p1, p2, p3]).unwrap(); if !flat { RasterOps::draw_tri(&mut *raw, p1, p2, p3).unwrap(); } }
                    else { c.draw_tri(p1, p2, p3).unwrap(); if !flat { RasterOps::draw_tri(&mut *raw, p1, p2, p3).unwrap(); } }
                }
                11 => {
                    // Polygons of any number of points.
                    let k = rt::pick(&[0usize, 1, 2, 4, 5]);
                    let mut v = vec![];
                    let same = rt::choose(2) == 1;
                    for i in 0..k { v.push(if i == 0 || same { p1 } else { at(&few) }); }
                    let fill = rt::choose(2) == 1;
                    if fill { c.draw_poly_filled(&v).unwrap(); } else { c.draw_poly(&v).unwrap(); }
                    let diff = v.iter().any(|p| *p != v[0]);
                    match k { 0 => (), 1 => raw.draw_pixel(v[0]).unwrap(), 2 => RasterOps::draw_line(&mut *raw, v[0], v[1]).unwrap(), _ if !diff => (), _ if fill => RasterOps::draw_poly_filled(&mut *raw, &v).unwrap(), _ => RasterOps::draw_poly(&mut *raw, &v).unwrap() }
                }
                _ => {
                    // The color that is read is the color that was drawn.
                    let k = rt::choose(256) as u8;
                    c.set_color(Some(k), None).unwrap();
                    let (x, y) = (rt::pick(&[0i16, 4, 5, -1]), rt::pick(&[0i16, 4, i16::MAX]));
                    c.draw_pixel(xy(x, y)).unwrap();
                    let seen = c.peek_pixel(xy(x, y)).unwrap();
                    let out = x < 0 || x > 4 || y > 4;
                    rt::check(seen.is_none() == out && (out || ansi_color_to_rgb(seen.unwrap()) == ansi_color_to_rgb(k)), "the color of a pixel is the one that was drawn");
                    rt::cover("shape");
                    return;
                }
            }
            show(&mut c);
            raw.present_canvas().unwrap();
            let w: Vec<[u8; 3]> = want.borrow().iter().map(|p| ink(*p != [0; 3])).collect();
            rt::check(*px.borrow() == w, "exactly the shape is drawn, in the current color");
        }
    }
    rt::cover("shape");
}

/// Every character draws its own glyph, in the given colors. Case: part of the characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_glyph(case: u32) {
    let (l, px) = lcd(10, 8, false);
    let mut c = std::mem::ManuallyDrop::new(GraphicsConsole::new(NoKeys, l, NoopAudioOps, None, None).unwrap());
    c.hide_cursor().unwrap();
    let (f, b) = rt::pick(&[(Some(9), Some(12)), (None, Some(3)), (Some(0), None)]);
    c.set_color(f, b).unwrap();
    let k = case as usize * 24 + rt::choose(24);
    let ch = if k < 95 { (32 + k as u8) as char } else { '\u{e9}' };
    c.write(&ch.to_string()).unwrap();
    let k = if k < 95 { k } else { 31 };
    let (fg, bg, blank) = (ansi_color_to_rgb(f.unwrap_or(7)), ansi_color_to_rgb(b.unwrap_or(0)), ansi_color_to_rgb(0));
    for y in 0..8 { for x in 0..10 {
        let on = x < 5 && FONT_5X8.data[k * 8 + y] >> (7 - x) & 1 == 1;
        let w = if x >= 5 { blank } else if on { fg } else { bg };
        rt::check(px.borrow()[y * 10 + x] == [w.0, w.1, w.2], "every character is shown as its glyph");
    } }
    rt::cover("shown");
}

rt::harness_main!(h_asked, h_shapes, h_glyph, h_pixels, h_lines, h_clip, h_circles, h_area, h_far, h_fill, h_console);
