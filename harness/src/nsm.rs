//! C01, C02: slotted pages.
use crate::rt::*;
use cathlamet::core::nsm::PageFormat;

/// (row alignment, page length, offset of the page in its allocation)
const CONFIGS: [(usize, usize, usize); 8] = [
    (1, 32, 0), (2, 32, 1), (4, 40, 0), (8, 64, 0), (16, 80, 0), (8, 56, 3), (4, 36, 2), (1, 27, 1),
];

struct Page { buf: Vec<u8>, orig: Vec<u8>, off: usize, len: usize, f: PageFormat, align: usize }

impl Page {
    fn new(c: usize) -> Page {
        let (align, len, off) = CONFIGS[c % CONFIGS.len()];
        // arbitrary previous contents, with a margin on either side of the page
        let buf = bytes(off + len + 8);
        let mut p = Page { orig: buf.clone(), buf, off, len, f: PageFormat::new(align), align };
        let r = p.off..p.off + p.len;
        p.f.initialize_page(&mut p.buf[r]);
        p
    }
    fn page(&self) -> &[u8] { &self.buf[self.off..self.off + self.len] }
    fn page_mut(&mut self) -> &mut [u8] { &mut self.buf[self.off..self.off + self.len] }
    fn room(&self) -> usize { self.f.max_insert_row_size(self.page()) }
    /// What the page must offer: everything not taken by rows and slots.
    fn expected_room(&self, rows: &[Vec<u8>]) -> Option<usize> {
        let al = |n: usize| (n + self.align - 1) / self.align * self.align;
        let used: usize = rows.iter().map(|r| al(r.len())).sum();
        let low = al(4 * (rows.len() + 2));
        if low + used <= self.len { Some(self.len - low - used) } else { None }
    }
    /// Is there space for the slot of one more row?
    fn slot_fits(&self, rows: &[Vec<u8>]) -> bool {
        let al = |n: usize| (n + self.align - 1) / self.align * self.align;
        let used: usize = rows.iter().map(|r| al(r.len())).sum();
        4 * (rows.len() + 2) + used <= self.len
    }
    fn append(&mut self, r: &[u8]) {
        let f = PageFormat::new(self.align);
        f.append_row(self.page_mut(), r)
    }
    fn insert(&mut self, i: usize, r: &[u8]) {
        let f = PageFormat::new(self.align);
        f.insert_row(self.page_mut(), i, r)
    }
    fn remove(&mut self, i: usize) {
        let f = PageFormat::new(self.align);
        f.remove_row(self.page_mut(), i)
    }
    fn compare(&self, rows: &[Vec<u8>]) {
        check(self.f.num_rows(self.page()) == rows.len(), 1);
        for i in 0..rows.len() {
            let g = self.f.get_row(self.page(), i);
            check(g.len() == rows[i].len(), 2);
            check(same(g, &rows[i]), 3);
            check((g.as_ptr() as usize - self.page().as_ptr() as usize) % self.align == 0, 4);
        }
        check(same(&self.buf[..self.off], &self.orig[..self.off]), 5);
        check(same(&self.buf[self.off + self.len..], &self.orig[self.off + self.len..]), 6);
    }
}

/// Up to `maxrows` rows of arbitrary content and of the given lengths, as far as they fit.
fn fill(p: &mut Page, maxrows: usize, lens: &[usize]) -> Vec<Vec<u8>> {
    let mut rows = Vec::new();
    let k = size(maxrows + 1);
    for _ in 0..k {
        let n = lens[size(lens.len())];
        match p.expected_room(&rows) {
            Some(room) if n <= room => (),
            _ => assume(false),
        }
        let r = bytes(n);
        p.append(&r);
        rows.push(r);
    }
    rows
}

fn all(maxlen: usize) -> Vec<usize> { (0..maxlen + 1).collect() }
/// Lengths on either side of each alignment boundary.
fn classes(align: usize) -> Vec<usize> {
    let mut v = if thorough() { vec![0, 1, align - 1, align, align + 1, 2 * align - 1, 2 * align, 2 * align + 1] } else { vec![0, 1, align, align + 1] };
    v.sort();
    v.dedup();
    v
}

fn step(p: &mut Page, rows: &mut Vec<Vec<u8>>, maxlen: usize) -> bool {
    match size(3) {
        0 => {
            let n = size(maxlen + 1);
            if !(n <= p.expected_room(rows).unwrap_or(0) && p.slot_fits(rows)) { return false }
            let r = bytes(n);
            p.append(&r);
            rows.push(r);
            cover(1);
        }
        1 => {
            let n = size(maxlen + 1);
            if !(n <= p.expected_room(rows).unwrap_or(0) && p.slot_fits(rows)) { return false }
            let r = bytes(n);
            let i = size(rows.len() + 1);
            p.insert(i, &r);
            rows.insert(i, r);
            cover(2);
        }
        _ => {
            if rows.len() == 0 { return false }
            let i = size(rows.len());
            p.remove(i);
            rows.remove(i);
            cover(3);
        }
    }
    true
}

/// C01: an arbitrary page, then a sequence of operations.
pub fn seq() {
    let mut p = Page::new(config());
    let maxlen = if thorough() { p.align.max(4) + 1 } else { p.align.min(8) + 1 };
    let mut rows = fill(&mut p, if thorough() { 4 } else { 3 }, &all(maxlen));
    p.compare(&rows);
    for r in 0..rows.len() { let g = p.f.get_row(p.page(), r); observe_bytes(g) }
    if !step(&mut p, &mut rows, maxlen) { return }
    p.compare(&rows);
    for r in 0..rows.len() { let g = p.f.get_row(p.page(), r); observe_bytes(g) }
    cover(4);
}

/// C01: operations only, from an empty page.
pub fn ops() {
    let mut p = Page::new(config());
    let mut rows = Vec::new();
    let n = if thorough() { 5 } else { 4 };
    for _ in 0..n {
        let m = if p.align > 4 { 1 } else { 2 };
        if !step(&mut p, &mut rows, m) { return }
        p.compare(&rows);
    }
    cover(4);
}

/// C02: offered room.
pub fn room() {
    let mut p = Page::new(config());
    let lens = classes(p.align);
    let mut rows = fill(&mut p, 3, &lens);
    if bools() && rows.len() > 0 {
        let i = size(rows.len());
        p.remove(i);
        rows.remove(i);
        cover(1);
    }
    let room = p.room();
    observe(room as u64);
    check(room == p.expected_room(&rows).unwrap_or(0), 10);
    // the same rows in a fresh page leave the same room
    let mut q = Page::new(config());
    for r in &rows { q.append(r) }
    check(q.room() == room, 11);
    // a row of any length: accepted exactly if it fits
    let n = size(room + 3);
    let fits = n <= room && p.slot_fits(&rows);
    let r = bytes(n);
    let at_end = bools();
    let i = if at_end { rows.len() } else { size(rows.len() + 1) };
    expect_panic(!fits);
    if at_end { p.append(&r) } else { p.insert(i, &r) }
    expect_panic(false);
    check(fits, 12);
    rows.insert(i, r);
    p.compare(&rows);
    if n == room && n > 0 { cover(2) }
    cover(3);
}

/// C02: removing everything gives everything back.
pub fn drain() {
    let mut p = Page::new(config());
    let empty = p.room();
    let lens = classes(p.align);
    let mut rows = fill(&mut p, if thorough() { 4 } else { 3 }, &lens);
    while rows.len() > 0 {
        let before = p.room();
        let i = size(rows.len());
        p.remove(i);
        rows.remove(i);
        check(p.room() >= before, 13);
        check(p.room() == p.expected_room(&rows).unwrap_or(0), 10);
        p.compare(&rows);
    }
    check(p.room() == empty, 14);
    cover(1);
}

/// C01, C02: sizes beyond one and two byte quantities. The page is initially zero and only the
/// first and last byte of each row are symbolic.
pub fn large() {
    let (align, len, lens): (usize, usize, &[usize]) = match config() {
        0 => (4, 140_000, &[1, 300, 65_536, 66_000]),
        1 => (4, 3_000, &[0, 1, 2]),
        2 => (64, 1_024, &[0, 1, 63, 64, 65, 128]),
        3 => (512, 16_384, &[1, 255, 256, 257, 511, 512]),
        _ => (4_096, 65_536, &[1, 300, 4_095, 4_097]),
    };
    let f = PageFormat::new(align);
    let al = |n: usize| (n + align - 1) / align * align;
    let mut page = vec![0u8; len];
    f.initialize_page(&mut page);
    let row = |n: usize, k: usize| {
        let mut r: Vec<u8> = (0..n).map(|i| (i * 7 + k) as u8).collect();
        if n > 0 { r[0] = u8s(); r[n - 1] = u8s(); }
        r
    };
    let mut rows: Vec<Vec<u8>> = Vec::new();
    if config() == 1 {
        for k in 0..280 { let r = vec![k as u8; 1]; f.append_row(&mut page, &r); rows.push(r) }
    }
    let used = |rows: &Vec<Vec<u8>>| -> usize { al(4 * (rows.len() + 2)) + rows.iter().map(|r| al(r.len())).sum::<usize>() };
    let places = |n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = [0, 1, 127, 128, 255, 256, 257].iter().copied().filter(|i| *i <= n).collect();
        if n > 257 { v.push(n) }
        v
    };
    for k in 0..3 {
        if bools() && rows.len() > 0 {
            let p = places(rows.len() - 1);
            let i = p[size(p.len())];
            f.remove_row(&mut page, i);
            rows.remove(i);
            cover(1);
        } else {
            let r = row(lens[size(lens.len())], k);
            let p = places(rows.len());
            let i = p[size(p.len())];
            let room = f.max_insert_row_size(&page);
            check(room == len - used(&rows), 1);
            if r.len() > room { expect_panic(true); f.insert_row(&mut page, i, &r); check(false, 2); }
            f.insert_row(&mut page, i, &r);
            rows.insert(i, r);
            cover(2);
        }
        check(f.num_rows(&page) == rows.len(), 3);
        let p = places(rows.len());
        for i in p {
            if i >= rows.len() { continue }
            let g = f.get_row(&page, i);
            check(g.len() == rows[i].len(), 4);
            check(same(g, &rows[i]), 5);
        }
    }
    cover(3);
}
