fn zi<T>() -> T { unsafe { core::mem::zeroed() } }
const MR: usize = 3;
/// a tile as the packet iterator sees it; pd = precinct exponents (PPx, PPy) per resolution
#[derive(Copy, Clone)]
struct Tile { x0: u32, y0: u32, x1: u32, y1: u32, lay: u32, nc: usize, c: [Tc; 2] }
#[derive(Copy, Clone)]
struct Tc { dx: u32, dy: u32, nr: u32, pd: [(u32, u32); MR] }
fn cd(a: u32, b: u32) -> u32 { a / b + (a % b != 0) as u32 }
/// resolution extent (trx0, try0, trx1, try1), ISO/IEC 15444-1 (B-12), (B-14)
fn rext(t: &Tile, c: usize, r: u32) -> (u32, u32, u32, u32) {
    let k = &t.c[c];
    let l = 1 << (k.nr - 1 - r);
    (cd(cd(t.x0, k.dx), l), cd(cd(t.y0, k.dy), l), cd(cd(t.x1, k.dx), l), cd(cd(t.y1, k.dy), l))
}
/// numprecinctswide, numprecinctshigh (B-16)
fn nprec(t: &Tile, c: usize, r: u32) -> (u32, u32) {
    let (a, b, x, y) = rext(t, c, r);
    let (px, py) = (1 << t.c[c].pd[r as usize].0, 1 << t.c[c].pd[r as usize].1);
    (if x > a { cd(x, px) - a / px } else { 0 }, if y > b { cd(y, py) - b / py } else { 0 })
}
type P = (u32, u32, u32, u32); // layer, resolution, component, precinct
const MAXP: usize = 60;
struct L { p: [P; MAXP], n: usize }
impl L { fn push(&mut self, p: P) { self.p[self.n] = p; self.n += 1; } }
/// what the position (y, x) contributes for component c and resolution r: the next precinct, if the
/// conditions of B.12.1.3 to B.12.1.5 hold there
fn at(t: &Tile, c: usize, r: u32, y: u32, x: u32, k: &mut [[u32; MR]; 2], out: &mut L) {
    let f = &t.c[c];
    let (a, b, _, _) = rext(t, c, r);
    let n = f.nr - 1 - r;
    let (px, py) = f.pd[r as usize];
    let yes = (y % (f.dy << (py + n)) == 0 || (y == t.y0 && (b << n) % (1 << (py + n)) != 0))
        && (x % (f.dx << (px + n)) == 0 || (x == t.x0 && (a << n) % (1 << (px + n)) != 0));
    let (w, h) = nprec(t, c, r);
    if yes && k[c][r as usize] < w * h {
        let mut l = 0;
        while l < t.lay { out.push((l, r, c as u32, k[c][r as usize])); l += 1; }
        k[c][r as usize] += 1;
    }
}
fn nres(t: &Tile) -> u32 { if t.nc > 1 { t.c[0].nr.max(t.c[1].nr) } else { t.c[0].nr } }
/// the packet sequence of progression `prg` as the standard's nested loops produce it
fn spec(t: &Tile, prg: i32) -> L {
    let mut o = L { p: [(0, 0, 0, 0); MAXP], n: 0 };
    let mut k = [[0u32; MR]; 2];
    let all = |l: u32, r: u32, c: usize, o: &mut L| {
        if r < t.c[c].nr {
            let (w, h) = nprec(t, c, r);
            let mut p = 0;
            while p < w * h { o.push((l, r, c as u32, p)); p += 1; }
        }
    };
    if prg == 0 {
        let mut l = 0;
        while l < t.lay { let mut r = 0; while r < nres(t) { let mut c = 0; while c < t.nc { all(l, r, c, &mut o); c += 1; } r += 1; } l += 1; }
    } else if prg == 1 {
        let mut r = 0;
        while r < nres(t) { let mut l = 0; while l < t.lay { let mut c = 0; while c < t.nc { all(l, r, c, &mut o); c += 1; } l += 1; } r += 1; }
    } else if prg == 2 {
        let mut r = 0;
        while r < nres(t) {
            let mut y = t.y0;
            while y < t.y1 { let mut x = t.x0; while x < t.x1 {
                let mut c = 0;
                while c < t.nc { if r < t.c[c].nr { at(t, c, r, y, x, &mut k, &mut o); } c += 1; }
                x += 1; } y += 1; }
            r += 1;
        }
    } else if prg == 3 {
        let mut y = t.y0;
        while y < t.y1 { let mut x = t.x0; while x < t.x1 {
            let mut c = 0;
            while c < t.nc { let mut r = 0; while r < t.c[c].nr { at(t, c, r, y, x, &mut k, &mut o); r += 1; } c += 1; }
            x += 1; } y += 1; }
    } else {
        let mut c = 0;
        while c < t.nc {
            let mut y = t.y0;
            while y < t.y1 { let mut x = t.x0; while x < t.x1 {
                let mut r = 0;
                while r < t.c[c].nr { at(t, c, r, y, x, &mut k, &mut o); r += 1; }
                x += 1; } y += 1; }
            c += 1;
        }
    }
    o
}
/// every precinct of every resolution, component and layer is in `o`
fn total(t: &Tile) -> usize {
    let (mut n, mut c) = (0, 0);
    while c < t.nc { let mut r = 0; while r < t.c[c].nr { let (w, h) = nprec(t, c, r); n += w * h * t.lay; r += 1; } c += 1; }
    n as usize
}
