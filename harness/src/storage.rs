//! C16 - C19: storage locations, volume identifiers, buffer queues and the buffer pool.
use crate::rt::*;
use cathlamet::storage::verif as st;
use std::cmp::Ordering;

#[cfg(feature = "locations")]
pub fn location() {
    let i = u8s();
    let o = u64s();
    let ok = o >> 56 == 0;
    expect_panic(!ok);
    let (i2, o2, _) = st::location(i, o);
    expect_panic(false);
    check(ok, 1);
    check(i2 == i, 2);
    check(o2 == o, 3);
    observe(i2 as u64);
    observe(o2);
    cover(1);
}

#[cfg(feature = "locations")]
pub fn location_order() {
    let (i, j) = (u8s(), u8s());
    let (o, p) = (bits(56), bits(56));
    let (a, b) = (st::loc(i, o), st::loc(j, p));
    let want = if i < j { -1 } else if i > j { 1 } else if o < p { -1 } else if o > p { 1 } else { 0 };
    let got = match a.cmp(&b) { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 };
    check(got == want, 1);
    check(a.eq(&b) == (want == 0), 2);
    check(a.partial_cmp(&b) == Some(a.cmp(&b)), 3);
    cover(1);
}

#[cfg(feature = "volumes")]
pub fn volumes() {
    let pool = st::Pool::new(64, 1);
    let mut v = st::Volumes::new(&pool);
    let mut seen = [false; 256];
    let mut exhausted = false;
    let mut n = 0;
    for _ in 0..260 {
        match v.next() {
            Some(i) => {
                check(!exhausted, 1);
                check(!seen[i as usize], 2);
                seen[i as usize] = true;
                n += 1;
            }
            None => exhausted = true,
        }
    }
    observe(n);
    check(exhausted, 3);
    // identifiers are not wasted: an 8 bit identifier gives at least 255 of them
    check(n >= 255, 4);
    cover(1);
}

#[cfg(feature = "locations")]
pub fn parameters() {
    let size = u64s();
    let b = 4096u64;
    let ok = size % b == 0 && size / b >= 1 && size / b <= 1u64 << 32;
    expect_panic(!ok);
    let p = cathlamet::storage::VolumeParameters::new_with_defaults(size);
    expect_panic(false);
    check(ok, 1);
    check(st::default_block_size() as u64 == b, 2);
    check(1u64 << (p.log_block_size & 63) == b, 3);
    check(p.volume_size == size, 4);
    check(p.log_file_header_size <= p.log_block_size, 5);
    // a header record must hold a file name of up to 255 bytes
    check(p.log_file_header_size >= 9, 6);
    cover(1);
}

/// C18
#[cfg(feature = "queues")]
pub fn queues() {
    let (nb, nq, ops) = if thorough() { (4, 2, 6) } else { (3, 2, 5) };
    let mut q = st::Queues::new(nb, nq);
    let mut model: Vec<Vec<u32>> = vec![Vec::new(); nq];
    for _ in 0..ops {
        let b = size(nb) as u32;
        match (0..nq).find(|&k| model[k].contains(&b)) {
            Some(k) => { q.remove(k, b); model[k].retain(|x| *x != b); cover(1) }
            None => {
                let k = size(nq);
                if bools() { q.push_front(k, b); model[k].insert(0, b); cover(2) } else { q.push_back(k, b); model[k].push(b); cover(3) }
            }
        }
        compare(&q, &model, nb);
    }
    cover(4);
}

#[cfg(feature = "queues")]
fn compare(q: &st::Queues, model: &Vec<Vec<u32>>, nb: usize) {
    for k in 0..model.len() {
        let mut i = q.head(k);
        for x in &model[k] { check(i == *x, 10); i = q.next(i) }
        check(i == st::NIL, 11);
        let mut i = q.tail(k);
        for x in model[k].iter().rev() { check(i == *x, 12); i = q.prev(i) }
        check(i == st::NIL, 13);
    }
    for b in 0..nb as u32 {
        if !model.iter().any(|m| m.contains(&b)) { check(q.next(b) == st::NIL && q.prev(b) == st::NIL, 14) }
    }
}

/// C18: one operation on queues of arbitrary prior content (built by push_back), with all buffers.
#[cfg(feature = "queues")]
pub fn queue_step() {
    let nb = if thorough() { 7 } else { 5 };
    let mut q = st::Queues::new(nb, 2);
    let mut model: Vec<Vec<u32>> = vec![Vec::new(); 2];
    // an arbitrary arrangement: each buffer goes to queue 0, queue 1 or stays free
    for b in 0..nb as u32 {
        let k = size(3);
        if k < 2 {
            if bools() { q.push_back(k, b); model[k].push(b) } else { q.push_front(k, b); model[k].insert(0, b) }
        }
    }
    compare(&q, &model, nb);
    let b = size(nb) as u32;
    match (0..2).find(|&k| model[k].contains(&b)) {
        Some(k) => {
            q.remove(k, b);
            model[k].retain(|x| *x != b);
            compare(&q, &model, nb);
            let k2 = size(2);
            q.push_back(k2, b);
            model[k2].push(b);
            cover(1);
        }
        None => { let k = size(2); q.push_front(k, b); model[k].insert(0, b); cover(2) }
    }
    compare(&q, &model, nb);
    cover(3);
}

/// C19
#[cfg(feature = "pool")]
pub fn pool() {
    use std::mem::ManuallyDrop;
    let n = 1 + config();               // buffers
    let ops = if thorough() { 8 } else { 6 };
    let nl = if n > 2 { 4 } else { 3 };       // locations
    let bs = 16;
    let pool = st::Pool::new(bs, n);
    check(pool.total_size() == bs * n, 1);
    let locs: Vec<st::Loc> = (0..nl).map(|i| st::loc((i & 1) as u8, 64 * (i as u64 / 2))).collect();
    // open handles: location, exclusive, handle; handles must be released before they are
    // dropped, which abandoned paths do not do. Nothing writes buffers back, so that a location
    // keeps its buffer for good.
    let mut open: ManuallyDrop<Vec<(usize, bool, st::Handle)>> = ManuallyDrop::new(Vec::new());
    let mut waiting: ManuallyDrop<Option<(usize, bool, st::Waiting)>> = ManuallyDrop::new(None);
    let mut mapped: Vec<Option<usize>> = vec![None; nl];
    let mut mark: Vec<[u8; 2]> = vec![[0; 2]; nl];
    for _ in 0..ops {
        let what = if waiting.is_some() { 3 } else { size(4) as u32 };
        if what == 3 {
            if open.len() == 0 { return }
            let k = size(open.len());
            let (_, _, mut h) = open.remove(k);
            check(h.release(), 2);
            if waiting.is_some() {
                let (l, exclusive, mut w) = waiting.take().unwrap();
                let conflict = open.iter().any(|o| o.0 == l && (o.1 || exclusive));
                let r = w.poll();
                check(r.is_some() == !conflict, 3);
                match r {
                    Some(h) => {
                        check(h.data().as_ptr() as usize == mapped[l].unwrap(), 4);
                        open.push((l, exclusive, h));
                        cover(6)
                    }
                    None => { *waiting = Some((l, exclusive, w)); cover(7) }
                }
            }
            cover(1);
        } else {
            let l = size(nl);
            // a location that is not held would be fetched from its volume
            if what != 0 && mapped[l].is_none() { return }
            let exclusive = what != 2;
            let conflict = open.iter().any(|o| o.0 == l && (o.1 || exclusive));
            let full = mapped[l].is_none() && mapped.iter().filter(|m| m.is_some()).count() >= n;
            let mut w = pool.open(what, locs[l]);
            let r = w.poll();
            check(r.is_some() == !(conflict || full), 5);
            match r {
                None if full => { std::mem::forget(w); cover(8); return }
                None => { *waiting = Some((l, exclusive, w)); cover(4) }
                Some(mut h) => {
                    let a = h.data().as_ptr() as usize;
                    check(h.data().len() == bs, 6);
                    match mapped[l] {
                        None => {
                            check(h.data().iter().all(|b| *b == 0), 7);
                            for m in 0..nl { if let Some(x) = mapped[m] { check(x != a, 8) } }
                            mapped[l] = Some(a);
                            cover(2);
                        }
                        Some(x) => { check(x == a, 9); cover(3) }
                    }
                    if exclusive {
                        let v = [u8s(), u8s()];
                        for (i, b) in h.data_mut().iter_mut().enumerate() { *b = v[i % 2] }
                        mark[l] = v;
                    }
                    open.push((l, exclusive, h));
                }
            }
        }
        // every handle sees what was last stored for its location
        for (l, _, h) in open.iter() {
            for (i, b) in h.data().iter().enumerate() { check(*b == mark[*l][i % 2], 10) }
        }
        // each buffer is in exactly one queue: in use exactly those that are open or waited for
        #[cfg(feature = "inside")]
        {
            let (q0, q1, q2) = (pool.queue(0), pool.queue(1), pool.queue(2));
            let used = (0..nl).filter(|l| open.iter().any(|o| o.0 == *l) || waiting.as_ref().map_or(false, |w| w.0 == *l)).count();
            check(q0.len() == used, 11);
            check(q0.len() + q1.len() + q2.len() == n, 12);
            let mut seen = vec![false; n];
            for b in q0.iter().chain(q1.iter()).chain(q2.iter()) {
                check((*b as usize) < n, 13);
                check(!seen[*b as usize], 14);
                seen[*b as usize] = true;
            }
            check(q2.len() == n - mapped.iter().filter(|m| m.is_some()).count(), 15);
        }
    }
    cover(5);
}

/// C19: clean buffers are used again, for the location they hold or for another one. Up to two
/// requests wait, for a handle or for a buffer.
#[cfg(feature = "inside")]
pub fn reuse() {
    use std::mem::ManuallyDrop;
    struct Loc { at: Option<usize>, dirty: bool, mark: [u8; 2] }
    struct Open<'a> { l: usize, exclusive: bool, h: st::Handle<'a> }
    struct Wait<'a> { l: usize, exclusive: bool, mapped: bool, w: st::Waiting<'a> }
    let n = [1, 2, 3, 6, 17][config()];
    let ops = if thorough() { [9, 7, 6, 6, 5][config()] } else { [7, 5, 4, 4, 4][config()] };
    let large = n > 3;
    let shift = if large { size(3) } else { 0 };
    let nl = n + 2;
    let pool = st::Pool::new(16, n);
    let locs: Vec<st::Loc> = (0..nl).map(|i| st::loc(i as u8 & 1, 64 * (i as u64 / 2))).collect();
    let mut open: ManuallyDrop<Vec<Open>> = ManuallyDrop::new(Vec::new());
    let mut waiting: ManuallyDrop<Vec<Wait>> = ManuallyDrop::new(Vec::new());
    let mut s: Vec<Loc> = (0..nl).map(|_| Loc { at: None, dirty: false, mark: [0; 2] }).collect();
    let busy = |l: usize, open: &Vec<Open>, waiting: &Vec<Wait>| open.iter().any(|o| o.l == l) || waiting.iter().any(|w| w.l == l && w.mapped);
    let free = |s: &Vec<Loc>, open: &Vec<Open>, waiting: &Vec<Wait>|
        n - s.iter().filter(|x| x.at.is_some()).count() + (0..nl).filter(|&l| s[l].at.is_some() && !s[l].dirty && !busy(l, open, waiting)).count();
    // each of the first n locations has no buffer, a dirty one, a clean one or a clean one in use
    let mut least = 0;
    for l in 0..n {
        let k = if large { match [0, n / 2, n - 1].iter().position(|x| *x == l) { Some(i) => [0, 2, 3][(i + shift) % 3], None => 1 + (l & 1) * 2 } } else { least + size(4 - least) };
        if !large { least = k }
        if k == 0 { continue }
        let mut h = pool.open(0, locs[l]).poll().unwrap();
        s[l] = Loc { at: Some(h.data().as_ptr() as usize), dirty: k == 1, mark: [u8s(), u8s()] };
        for (i, b) in h.data_mut().iter_mut().enumerate() { *b = s[l].mark[i % 2] }
        check(h.release(), 12);
        if k == 1 { continue }
        let mut h = pool.open(2, locs[l]).poll().unwrap();
        pool.stored(locs[l]);
        if k == 2 { check(h.release(), 13) } else { open.push(Open { l, exclusive: false, h }) }
    }
    let any = || if large { [0, n / 2, n - 1, n, n + 1][size(5)] } else { size(nl) };
    for _ in 0..ops {
        match size(5) {
            k if k < 3 => {
                // what a location that has no buffer holds would be fetched from its volume
                let l = any();
                if k != 0 && s[l].at.is_none() { return }
                // two requests for one location may be served in either order
                if waiting.iter().any(|w| w.l == l) { return }
                let exclusive = k != 2;
                let ready = match s[l].at {
                    Some(_) => !open.iter().any(|o| o.l == l && (o.exclusive || exclusive)),
                    None => free(&s, &open, &waiting) > 0,
                };
                if !ready && waiting.len() > 1 { return }
                let mut w = pool.open(k as u32, locs[l]);
                let r = w.poll();
                check(r.is_some() == ready, 1);
                match r {
                    None => { let mapped = s[l].at.is_some(); waiting.push(Wait { l, exclusive, mapped, w }); either(mapped) }
                    Some(h) => {
                        if arrive(l, exclusive, &h, &mut s, &open, &waiting) { cover(3) }
                        open.push(Open { l, exclusive, h });
                        fresh(&mut open, &mut s);
                    }
                }
            }
            3 => {
                // the content of a location that is being read has been stored
                let l = any();
                if !s[l].dirty || !open.iter().any(|o| o.l == l) || open.iter().any(|o| o.l == l && o.exclusive) { return }
                pool.stored(locs[l]);
                s[l].dirty = false;
                cover(4);
            }
            _ => {
                if open.len() == 0 { return }
                let k = if open.len() > 3 { [0, open.len() - 2, open.len() - 1][size(3)] } else { size(open.len()) };
                let mut o = open.remove(k);
                check(o.h.release(), 2);
                if o.exclusive { s[o.l].dirty = true }
                // those who wait get their turn now, in this or that order, or later
                if waiting.len() == 0 || bools() { continue }
                let last_first = waiting.len() > 1 && bools();
                let waiters = waiting.iter().filter(|w| !w.mapped).count();
                let room = free(&s, &open, &waiting).min(waiters);
                let mut served = 0;
                let mut now: Vec<Wait> = waiting.drain(..).collect();
                if last_first { now.reverse() }
                while now.len() > 0 {
                    let mut w = now.remove(0);
                    let ready = w.mapped && !open.iter().any(|o| o.l == w.l && (o.exclusive || w.exclusive));
                    let r = w.w.poll();
                    if w.mapped { check(r.is_some() == ready, 3) }
                    match r {
                        None => if last_first { waiting.insert(0, w) } else { waiting.push(w) },
                        Some(h) => {
                            // the others still count as waiting
                            let n = waiting.len();
                            waiting.extend(now.drain(..));
                            arrive(w.l, w.exclusive, &h, &mut s, &open, &waiting);
                            now.extend(waiting.drain(n..));
                            open.push(Open { l: w.l, exclusive: w.exclusive, h });
                            fresh(&mut open, &mut s);
                            if w.mapped { cover(5) } else { cover(6); served += 1 }
                        }
                    }
                }
                check(served == room, 11);
            }
        }
        for o in open.iter() {
            check(o.h.data().as_ptr() as usize == s[o.l].at.unwrap(), 4);
            for (i, b) in o.h.data().iter().enumerate() { check(*b == s[o.l].mark[i % 2], 5) }
        }
    }
    cover(7);

    /// A new handle: its buffer is the one of its location, or was nobody's or unused and clean.
    fn arrive(l: usize, _exclusive: bool, h: &st::Handle, s: &mut Vec<Loc>, open: &Vec<Open>, waiting: &Vec<Wait>) -> bool {
        let a = h.data().as_ptr() as usize;
        check(h.data().len() == 16, 6);
        match s[l].at {
            Some(x) => { check(x == a, 7); false }
            None => {
                check(h.data().iter().all(|b| *b == 0), 8);
                let mut again = false;
                for m in 0..s.len() {
                    if s[m].at != Some(a) { continue }
                    check(!s[m].dirty, 9);
                    check(!open.iter().any(|o| o.l == m) && !waiting.iter().any(|w| w.l == m && w.mapped), 10);
                    s[m].at = None;
                    again = true;
                }
                s[l] = Loc { at: Some(a), dirty: false, mark: [0; 2] };
                again
            }
        }
    }
    /// The holder of a new exclusive handle writes.
    fn fresh(open: &mut Vec<Open>, s: &mut Vec<Loc>) {
        let o = open.last_mut().unwrap();
        if o.exclusive {
            let v = [u8s(), u8s()];
            for (i, b) in o.h.data_mut().iter_mut().enumerate() { *b = v[i % 2] }
            s[o.l].mark = v;
        }
    }
}

/// C19: pools of other sizes, all of whose buffers are in use at a time.
#[cfg(feature = "pool")]
pub fn sizes() {
    use std::mem::ManuallyDrop;
    let bs = [1, 2, 64, 4096][size(4)];
    let n = [1, 2, 7, 33, 64, 257][size(if thorough() { 6 } else { 5 })];
    let pool = st::Pool::new(bs, n);
    check(pool.total_size() == bs * n, 1);
    // neighbouring locations differ in the volume, in a low or in a high part of the offset
    let kind = size(4);
    let back = bools();
    let at = |i: usize| { let i = if back { n - i } else { i } as u64; match kind { 0 => st::loc((i & 255) as u8, i / 256 * 4096), 1 => st::loc(7, i), 2 => st::loc(255, i << 40), _ => st::loc((i & 1) as u8, (i / 2) << 12) } };
    let mut open: ManuallyDrop<Vec<(usize, st::Handle)>> = ManuallyDrop::new(Vec::new());
    let x = u8s();
    for i in 0..n {
        let mut h = match pool.open(0, at(i)).poll() { Some(h) => h, None => { check(false, 2); return } };
        check(h.data().len() == bs, 3);
        let a = h.data().as_ptr() as usize;
        for (b, _) in open.iter() { check(a >= *b + bs || a + bs <= *b, 4) }
        let m = h.data_mut();
        m[0] = x ^ i as u8;
        m[bs - 1] = x ^ i as u8;
        open.push((a, h));
    }
    let mut w = pool.open(0, at(n));
    check(w.poll().is_none(), 5);
    std::mem::forget(w);
    for (i, (_, h)) in open.iter().enumerate() { check(h.data()[0] == x ^ i as u8 && h.data()[bs - 1] == x ^ i as u8, 6) }
    // released and asked for again, each location has what was written for it
    let k = [0, n / 2, n - 1][size(3)];
    check(open[k].1.release(), 7);
    let again = pool.open(2, at(k)).poll();
    match again {
        None => check(false, 8),
        Some(h) => { check(h.data().as_ptr() as usize == open[k].0, 9); check(h.data()[0] == x ^ k as u8, 10); std::mem::forget(h); cover(1) }
    }
}
