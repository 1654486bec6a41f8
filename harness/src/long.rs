//! Sequences longer than what narrow counters hold, and as long as sequences may be.
use crate::catch;
use crate::rng::Rng;
use crate::run::*;
use lokky::boxed::Box as LBox;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec as LVec;
use std::fmt::Debug;

fn size(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 250 + r.below(12),
        1 | 2 => 65_530 + r.below(12),
        3 => 131_066 + r.below(12),
        4 => r.range(30_000, 65_000),
        _ => r.range(65_537, 140_000),
    }
}

fn index(r: &mut Rng, len: usize) -> usize {
    let i = match r.below(10) {
        0 | 1 => 0,
        2 => 1,
        3 => len / 2,
        4 => len.saturating_sub(1),
        5 => len.saturating_sub(2),
        6 => len.wrapping_sub(65_535 + r.below(3)),
        7 => len.wrapping_sub(255 + r.below(3)),
        8 => 65_535 + r.below(3),
        _ => r.below(len + 1),
    };
    i.min(len)
}

pub trait Item: Copy + Ord + Debug + 'static {
    fn of(x: u32) -> Self;
    fn key(self) -> u32;
}
impl Item for u8 {
    fn of(x: u32) -> u8 {
        x as u8
    }
    fn key(self) -> u32 {
        self as u32
    }
}
impl Item for u32 {
    fn of(x: u32) -> u32 {
        x
    }
    fn key(self) -> u32 {
        self
    }
}
impl Item for [u16; 3] {
    fn of(x: u32) -> [u16; 3] {
        [x as u16, (x >> 8) as u16, 7]
    }
    fn key(self) -> u32 {
        self[0] as u32
    }
}

fn values<E: Item>(r: &mut Rng, n: usize) -> Vec<E> {
    let a = r.below(1000) as u32;
    let k = 1 + r.below(4) as u32;
    (0..n as u32).map(|i| E::of(a.wrapping_add((i / k).wrapping_mul(2_654_435_761) >> 7))).collect()
}

macro_rules! long {
    ($name:ident, $V:ty, $tag:expr, $extend:expr, [$($g:tt)*], $extra:expr) => {
        fn $name<E: Item, $($g)*>(cx: &mut Ctx) {
            let n = size(&mut cx.rng);
            let mut m: Vec<E> = values(&mut cx.rng, n);
            let mut v: $V = <$V>::from(&m[..]);
            let mut op = "from a slice";
            cx.count("long_sequences", 1);
            for k in 0..14 {
                let same = |what: &str, a: &[E], b: &[E], more: &[&str]| {
                    if a != b {
                        let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                        let mut t = vec![$tag];
                        t.extend_from_slice(more);
                        report(&t, format!("{what}: {} elements, expected {}; the first difference is at {at}", a.len(), b.len()));
                    }
                };
                let more: &[&str] = if matches!(op, "drain" | "into_iter") { &["C21"] } else { &[] };
                same(op, v.as_slice(), &m, more);
                if v.len() != m.len() || tainted() {
                    break;
                }
                let len = m.len();
                if len < 20 || k == 13 {
                    break;
                }
                let i = index(&mut cx.rng, len);
                let x = E::of(cx.rng.below(1 << 20) as u32);
                let which = cx.rng.below(17);
                cx.step(which as u64, (len >> 8) as u64 * 64 + (i >> 12) as u64);
                match which {
                    0 => {
                        op = "insert";
                        v.insert(i, x);
                        m.insert(i, x);
                    }
                    1 => {
                        op = "remove";
                        let i = i.min(len - 1);
                        if v.remove(i) != m.remove(i) {
                            report(&[$tag], format!("remove({i}) of {len} gives other element"));
                        }
                    }
                    2 => {
                        op = "swap_remove";
                        let i = i.min(len - 1);
                        if v.swap_remove(i) != m.swap_remove(i) {
                            report(&[$tag], format!("swap_remove({i}) of {len} gives other element"));
                        }
                    }
                    3 | 4 => {
                        op = "drain";
                        let j = index(&mut cx.rng, len);
                        let (a, b) = (i.min(j), i.max(j));
                        let (f, k) = (cx.rng.below(4), cx.rng.below(4));
                        let far = index(&mut cx.rng, b - a);
                        let mut d = v.drain(a..b);
                        let mut e = m.drain(a..b);
                        for _ in 0..f {
                            if d.next() != e.next() {
                                report(&[$tag, "C21"], "drain gives other element".into());
                            }
                        }
                        for _ in 0..k {
                            if d.next_back() != e.next_back() {
                                report(&[$tag, "C21"], "drain gives other element from the back".into());
                            }
                        }
                        if d.len() != e.len() || d.nth(far) != e.nth(far) || d.len() != e.len() || d.as_slice() != e.as_slice() {
                            report(&[$tag, "C21"], "drain gives other elements".into());
                        }
                    }
                    5 => {
                        op = "split_off";
                        let i = i.min(len - 1);
                        let mut t = v.split_off(i);
                        let mut u = m.split_off(i);
                        same("what is split off", t.as_slice(), &u, &[]);
                        if cx.rng.chance(3, 4) && t.len() == u.len() {
                            t.append(&mut v);
                            u.append(&mut m);
                            same("the vector appended", v.as_slice(), &[], &[]);
                            v = t;
                            m = u;
                        }
                    }
                    6 => {
                        op = "truncate";
                        let i = if cx.rng.chance(1, 3) { i } else { len - cx.rng.below(len / 8) };
                        v.truncate(i);
                        m.truncate(i);
                    }
                    7 => {
                        op = "retain";
                        let k = 2 + cx.rng.below(900) as u32;
                        let keep = cx.rng.chance(1, 8);
                        v.retain(|x| (x.key() % k == 0) == keep);
                        m.retain(|x| (x.key() % k == 0) == keep);
                    }
                    8 => {
                        op = "dedup";
                        v.dedup();
                        m.dedup();
                    }
                    9 => {
                        op = "dedup_by_key";
                        let k = 1 + cx.rng.below(6);
                        v.dedup_by_key(|x| x.key() >> k);
                        m.dedup_by_key(|x| x.key() >> k);
                    }
                    10 => {
                        op = "extend_from_slice";
                        let n = if len > 140_000 { 300 } else { size(&mut cx.rng) };
                        let s = values(&mut cx.rng, n);
                        v.extend_from_slice(&s);
                        m.extend_from_slice(&s);
                    }
                    11 => {
                        op = "extend";
                        let n = if len > 140_000 { 300 } else { size(&mut cx.rng) };
                        let s = values(&mut cx.rng, n);
                        $extend(&mut v, &s);
                        m.extend(s);
                    }
                    12 => {
                        op = "resize";
                        let n = if len > 140_000 { i } else { size(&mut cx.rng) };
                        if cx.rng.chance(1, 2) {
                            v.resize(n, x);
                            m.resize(n, x);
                        } else {
                            let (mut a, mut b) = (0, 0);
                            v.resize_with(n, || { a += 1; E::of(a) });
                            m.resize_with(n, || { b += 1; E::of(b) });
                        }
                    }
                    13 => {
                        op = "clone";
                        let c = v.clone();
                        if c != v || c.as_slice() != v.as_slice() {
                            report(&[$tag, "C20"], "clone is not equal".into());
                        }
                        v = c;
                    }
                    14 => {
                        op = "shrink_to_fit";
                        v.shrink_to_fit();
                        if v.capacity() < len {
                            report(&["C08"], format!("capacity {} is less than the length {len}", v.capacity()));
                        }
                    }
                    15 => {
                        op = "boxed slice";
                        let b = v.into_boxed_slice();
                        same("boxed slice", &b, &m, &["C22"]);
                        v = <$V>::from(b);
                    }
                    _ => {
                        op = "into_iter";
                        v = $extra(v, &m, cx);
                    }
                }
            }
        }
    };
}

fn through_iter<E: Item>(v: LVec<E>, m: &[E], cx: &mut Ctx) -> LVec<E> {
    let mut a = v.into_iter();
    let mut b = m.iter();
    let (i, j) = (index(&mut cx.rng, m.len()), index(&mut cx.rng, m.len()));
    let mut ok = a.nth(i).as_ref() == b.nth(i) && a.len() == b.len();
    ok &= a.nth_back(j).as_ref() == b.nth_back(j) && a.len() == b.len() && a.size_hint() == b.size_hint();
    ok &= a.next_back().as_ref() == b.next_back() && a.next().as_ref() == b.next() && a.as_slice() == b.as_slice();
    ok &= a.eq(b.copied());
    if !ok {
        report(&["C21", "C01"], format!("iterator over {} elements gives other ones", m.len()));
    }
    LVec::from(m)
}

fn through_vec<E: Item, const N: usize>(v: SmallVec<E, N>, m: &[E], _: &mut Ctx) -> SmallVec<E, N> {
    let w = v.into_vec();
    if w.as_slice() != m {
        report(&["C02", "C09"], format!("vector made of the small one of {} elements differs", m.len()));
    }
    SmallVec::from(w)
}

fn ext_vec<E: Item>(v: &mut LVec<E>, s: &[E]) {
    v.extend_from_iter(s.iter().copied())
}
fn ext_small<E: Item, const N: usize>(v: &mut SmallVec<E, N>, s: &[E]) {
    <SmallVec<E, N> as Extend<E>>::extend(v, s.iter().copied())
}

long!(long_vec, LVec<E>, "C01", ext_vec, [], through_iter);
long!(long_small, SmallVec<E, N>, "C02", ext_small, [const N: usize], through_vec);

pub fn vec(cx: &mut Ctx) {
    guard(cx, "C01", |cx| match cx.rng.below(4) {
        0 => long_vec::<u8>(cx),
        1 => long_vec::<[u16; 3]>(cx),
        2 => long_vec::<u32>(cx),
        _ => giant_vec(cx),
    })
}

pub fn small(cx: &mut Ctx) {
    guard(cx, "C02", |cx| match cx.rng.below(4) {
        0 => long_small::<u8, 300>(cx),
        1 => long_small::<[u16; 3], 4>(cx),
        2 => long_small::<u32, 0>(cx),
        _ => giant_small(cx),
    })
}

pub fn string(cx: &mut Ctx) {
    guard(cx, "C03", long_string)
}

fn guard(cx: &mut Ctx, tag: &str, f: impl FnOnce(&mut Ctx)) {
    cx.arenas.iter().for_each(|a| a.lenient());
    let r = catch(|| f(&mut *cx));
    if let Err(e) = r {
        if cx.arenas.iter().any(|a| a.n_failed.load(std::sync::atomic::Ordering::Relaxed) > 0) {
            // All the memory of the case was used up.
            cx.count("exhausted", 1);
        } else {
            report(&[tag], format!("unexpected panic in a long sequence: {e}"));
        }
        return;
    }
    if cx.a0.live_blocks() != 0 {
        report(&["C06", "C04"], format!("{} blocks remain", cx.a0.live_blocks()));
    }
}

/// Numbers on both sides of what narrow integers hold.
fn giant(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => usize::MAX - r.below(4),
        1 => (1 << 32) - 2 + r.below(4),
        2 => (1 << 31) - 2 + r.below(4),
        3 => isize::MAX as usize - 1 + r.below(3),
        4 => (1 << 16) - 2 + r.below(4),
        _ => r.next() as usize,
    }
}

macro_rules! giant {
    ($name:ident, $V:ty, $tag:expr) => {
        /// Values that take no place: there may be as many as a number can tell.
        fn $name(cx: &mut Ctx) {
            let mut m = giant(&mut cx.rng).max(10);
            let mut v = <$V>::from(of_nothing(m));
            cx.count("giant_sequences", 1);
            for _ in 0..12 {
                if v.len() != m || v.as_slice().len() != m || v.is_empty() != (m == 0) {
                    report(&[$tag, "C08"], format!("length is {} of {m}", v.len()));
                    break;
                }
                if v.capacity() < m {
                    report(&["C08"], format!("capacity is {} for {m} elements", v.capacity()));
                    break;
                }
                if m < 10 {
                    break;
                }
                let i = giant(&mut cx.rng) % m;
                let which = cx.rng.below(13);
                cx.step(32 + which as u64, (m.leading_zeros() * 64 + i.leading_zeros()) as u64);
                match which {
                    0 => {
                        want_some(v.pop().is_some(), "pop", $tag);
                        m -= 1;
                    }
                    1 => {
                        let r = catch(|| v.push(()));
                        if r.is_ok() != (m < usize::MAX) {
                            report(&[$tag, "C08"], format!("push to {m} elements: {r:?}"));
                            break;
                        }
                        m += r.is_ok() as usize;
                    }
                    2 => {
                        let r = catch(|| v.insert(i, ()));
                        if r.is_ok() != (m < usize::MAX) {
                            report(&[$tag, "C08"], format!("insert to {m} elements: {r:?}"));
                            break;
                        }
                        m += r.is_ok() as usize;
                    }
                    3 => {
                        v.remove(i);
                        m -= 1;
                    }
                    4 => {
                        v.swap_remove(i);
                        m -= 1;
                    }
                    5 | 6 => {
                        let b = i + cx.rng.below(5).min(m - i);
                        let k = cx.rng.below(3);
                        let n = {
                            let mut d = v.drain(i..b);
                            let n = d.len();
                            for _ in 0..k {
                                let n = d.len();
                                if d.next().is_some() != (n > 0) {
                                    report(&[$tag, "C21"], format!("drain with {n} elements left"));
                                }
                            }
                            n
                        };
                        if n != b - i {
                            report(&[$tag, "C21"], format!("drain of {} elements of {m} tells {n}", b - i));
                        }
                        m -= b - i;
                    }
                    7 => {
                        v.truncate(i);
                        m = i;
                    }
                    8 => {
                        let mut t = v.split_off(i);
                        if t.len() != m - i || v.len() != i {
                            report(&[$tag], format!("split_off({i}) of {m} gives {} and leaves {}", t.len(), v.len()));
                            break;
                        }
                        match cx.rng.below(3) {
                            0 => m = i,
                            1 => {
                                t.append(&mut v);
                                v = t;
                            }
                            _ => v.append(&mut t),
                        }
                    }
                    9 => {
                        let n = giant(&mut cx.rng);
                        let r = if cx.rng.chance(1, 2) { v.try_reserve(n).is_ok() } else { v.try_reserve_exact(n).is_ok() };
                        if r != m.checked_add(n).is_some() {
                            report(&["C08"], format!("request for {n} more of {m} elements: {r}"));
                        }
                    }
                    10 => {
                        v.shrink_to_fit();
                        let (s, n) = (v.spare_len(), v.capacity() - m);
                        if s != n {
                            report(&["C08"], format!("{s} spare elements, {n} expected"));
                        }
                    }
                    11 => {
                        let b: LBox<[()]> = v.into_boxed_slice();
                        if b.len() != m {
                            report(&[$tag, "C22"], format!("boxed slice of {m} has {}", b.len()));
                        }
                        v = <$V>::from(b);
                    }
                    _ => {
                        let n = giant(&mut cx.rng);
                        let mut o = <$V>::from(of_nothing(n));
                        let r = catch(|| v.append(&mut o));
                        let fits = m.checked_add(n);
                        if r.is_ok() != fits.is_some() {
                            report(&[$tag, "C08"], format!("append of {n} to {m}: {r:?}"));
                            break;
                        }
                        let left = if fits.is_some() { 0 } else { n };
                        if o.len() != left {
                            report(&[$tag], format!("append of {n} leaves {}", o.len()));
                        }
                        m = fits.unwrap_or(m);
                    }
                }
            }
        }
    };
}
fn of_nothing(n: usize) -> LVec<()> {
    let mut v = LVec::new();
    // Zero-sized values exist anywhere.
    unsafe { v.set_len(n) };
    v
}

fn want_some(c: bool, what: &str, tag: &str) {
    if !c {
        report(&[tag], format!("{what} gives nothing"));
    }
}
giant!(giant_vec, LVec<()>, "C01");
giant!(giant_small, SmallVec<(), 3>, "C02");

/// Text longer than what narrow counters hold.
fn long_string(cx: &mut Ctx) {
    use lokky::string::String as LString;
    const T: &str = "C03";
    fn text(r: &mut Rng, bytes: usize) -> String {
        let mut s = String::with_capacity(bytes + 4);
        let wide = r.below(4);
        let mut k = r.next() as u32 | 1;
        while s.len() < bytes {
            k = k.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            s.push(match (k >> 24) % (2 + wide as u32 * 3) {
                2 => 'é',
                3 => '€',
                4 => '𝄞',
                x => (b'a' + x as u8 % 20) as char,
            });
        }
        s
    }
    fn border(r: &mut Rng, m: &str) -> usize {
        let mut i = index(r, m.len());
        while !m.is_char_boundary(i) {
            i -= 1;
        }
        i
    }
    let n = size(&mut cx.rng);
    let mut m = text(&mut cx.rng, n);
    let mut s = LString::from(m.as_str());
    cx.count("long_texts", 1);
    let mut op = "from text";
    for k in 0..14 {
        if s.as_bytes() != m.as_bytes() || s.len() != m.len() || s.as_str() != m {
            let at = s.as_bytes().iter().zip(m.as_bytes()).position(|(a, b)| a != b);
            report(&[T], format!("{op}: {} bytes, expected {}; the first difference is at {at:?}", s.len(), m.len()));
            break;
        }
        let len = m.len();
        if len < 20 || k == 13 || tainted() {
            break;
        }
        let i = border(&mut cx.rng, &m);
        let c = *cx.rng.pick(&['x', 'é', '€', '𝄞']);
        let which = cx.rng.below(14);
        cx.step(64 + which as u64, (len >> 8) as u64 * 64 + (i >> 12) as u64);
        match which {
            0 => {
                op = "insert";
                s.insert(i, c);
                m.insert(i, c);
            }
            1 | 2 => {
                op = "insert_str";
                let n = *cx.rng.pick(&[1, 255, 256, 257, 4096, 65_535, 65_536, 65_537, 70_001]);
                let t = text(&mut cx.rng, if len > 200_000 { 3 } else { n });
                s.insert_str(i, &t);
                m.insert_str(i, &t);
            }
            3 | 4 => {
                op = "remove";
                if i < len && s.remove(i) != m.remove(i) {
                    report(&[T], format!("remove({i}) of {len} gives other character"));
                }
            }
            5 => {
                op = "truncate";
                let i = if cx.rng.chance(1, 3) { i } else { border(&mut cx.rng, &m).max(i) };
                s.truncate(i);
                m.truncate(i);
            }
            6 => {
                op = "split_off";
                let t = s.split_off(i);
                let u = m.split_off(i);
                if t.as_str() != u || s.as_str() != m {
                    report(&[T], format!("split_off({i}) of {len} gives other text"));
                }
                if cx.rng.chance(3, 4) {
                    s = t + s.as_str();
                    m = u + &m;
                }
            }
            7 => {
                op = "push_str";
                let n = if len > 200_000 { 3 } else { size(&mut cx.rng) };
                let t = text(&mut cx.rng, n);
                s.push_str(&t);
                m.push_str(&t);
            }
            8 => {
                op = "retain";
                let k = 2 + cx.rng.below(40) as u32;
                s.retain(|c| c as u32 % k != 0);
                m.retain(|c| c as u32 % k != 0);
            }
            9 => {
                // Grows by each character when they are wider.
                if len > 1000 && !m.is_ascii() {
                    continue;
                }
                op = "from_utf16";
                let w: Vec<u16> = m.encode_utf16().collect();
                match LString::from_utf16(&w) {
                    Ok(t) => s = t,
                    Err(e) => report(&[T], format!("valid UTF-16 is refused: {e:?}")),
                }
            }
            10 => {
                op = "from_utf8";
                let v: LVec<u8> = LVec::from(m.as_bytes());
                match LString::from_utf8(v) {
                    Ok(t) => s = t,
                    Err(e) => report(&[T], format!("valid UTF-8 is refused: {e:?}")),
                }
                let mut v: LVec<u8> = LVec::from(m.as_bytes());
                v.insert(i, 0xff);
                match LString::from_utf8(v) {
                    Ok(_) => report(&[T], "invalid UTF-8 is accepted".into()),
                    Err(e) => {
                        if e.valid_up_to() != i {
                            report(&[T], format!("invalid byte {i} is told as {}", e.valid_up_to()));
                        }
                    }
                }
            }
            11 => {
                op = "clone";
                let t = s.clone();
                if t != s {
                    report(&[T, "C20"], "clone is not equal".into());
                }
                s = t;
            }
            12 => {
                op = "pop";
                if s.pop() != m.pop() {
                    report(&[T], "pop gives other character".into());
                }
            }
            _ => {
                op = "bytes";
                let t = unsafe { s.as_mut_vec() };
                if t.as_slice() != m.as_bytes() {
                    report(&[T], "bytes of the text differ".into());
                }
            }
        }
    }
}
