//! Comparison, hashing, formatting and borrowed views of containers and handles are those of the
//! value inside.
use crate::cont::hash_of;
use crate::run::*;
use crate::{note, rng::Rng};
use lokky::arc::Arc;
use lokky::boxed::Box as LBox;
use lokky::rc::Rc;
use lokky::small_vec::SmallVec;
use lokky::string::String as LString;
use lokky::urc::Urc;
use lokky::vec::Vec as LVec;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::{Debug, Display};
use std::hash::Hash;

const T: &[&str] = &["C20"];

/// Equality is coarser than identity, order is partial.
#[derive(Clone, Debug)]
struct Odd(i32);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.partial_cmp(o) == Some(Ordering::Equal)
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if self.0 % 7 == 0 || o.0 % 7 == 0 {
            None
        } else {
            (self.0 / 2).partial_cmp(&(o.0 / 2))
        }
    }
}
impl Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad_integral(self.0 >= 0, "0o", "x")
    }
}

/// Equal values are not the same: order and hash look at a part.
#[derive(Clone, Debug)]
struct Part(u8, u32);
impl PartialEq for Part {
    fn eq(&self, o: &Part) -> bool {
        self.0 == o.0
    }
}
impl Eq for Part {}
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Part) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Part {
    fn cmp(&self, o: &Part) -> Ordering {
        // Backward.
        o.0.cmp(&self.0)
    }
}
impl Hash for Part {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Display for Part {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.1)
    }
}

fn float(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, -0.0, 1.0, -1.0, 1.5, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300, 1e9])
}

/// Mostly short; long ones are equal at the start.
fn size(r: &mut Rng) -> usize {
    match r.below(8) {
        _ if cfg!(miri) => r.below(5),
        0 => r.below(20),
        1 => r.below(80),
        _ => r.below(5),
    }
}

fn chr(r: &mut Rng) -> char {
    match r.below(8) {
        0 => {
            let top = *r.pick(&[0x80, 0x800, 0x10000, 0x110000]);
            char::from_u32(r.below(top) as u32).unwrap_or('\u{fffd}')
        }
        1 | 2 => *r.pick(&[
            '\u{1}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}',
            '\u{10000}', '\u{10ffff}', '\u{301}', '\u{200d}', '\\', '\'', '\t', 'A',
        ]),
        _ => *r.pick(&['a', 'b', 'é', '€', '😀', '\n', '"', '\0', 'z']),
    }
}

fn text(r: &mut Rng) -> String {
    let n = size(r);
    (0..n).map(|_| chr(r)).collect()
}

/// Text that differs from the given one at some place, or does not.
fn like(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let at = r.below(v.len() + 1);
    match r.below(5) {
        0 => return text(r),
        1 => v.truncate(at),
        2 => v.insert(at, chr(r)),
        3 if at < v.len() => v[at] = chr(r),
        _ => {}
    }
    v.into_iter().collect()
}

fn texts(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v = vec![text(r)];
    while v.len() < n {
        let t = like(r, &v[0].clone());
        v.push(t);
    }
    v
}

/// All that the hasher is told: equal values must tell the same to each one.
#[derive(Default)]
struct Told(Vec<Vec<u8>>);
impl std::hash::Hasher for Told {
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.to_vec())
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn told(v: &(impl Hash + ?Sized)) -> (u64, Vec<Vec<u8>>) {
    let mut t = Told::default();
    v.hash(&mut t);
    (hash_of(v), t.0)
}

/// All the results of comparison.
fn all<V: PartialOrd + ?Sized>(a: &V, b: &V) -> ([bool; 6], Option<Ordering>) {
    ([a == b, a != b, a < b, a <= b, a > b, a >= b], a.partial_cmp(b))
}

/// Writer that takes a limited number of bytes and then fails.
struct Limited {
    text: String,
    left: usize,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if c.len_utf8() > self.left {
                self.left = 0;
                return Err(std::fmt::Error);
            }
            self.left -= c.len_utf8();
            self.text.push(c);
        }
        Ok(())
    }
}
/// What the writers which fail receive and what is told about it.
fn limited(f: impl Fn(&mut Limited) -> std::fmt::Result) -> String {
    let mut res = String::new();
    for left in [0, 1, 2, 5, 40] {
        let mut w = Limited { text: String::new(), left };
        let r = f(&mut w);
        res += &format!("{:?} {:?};", w.text, r);
    }
    res
}

fn dbg(v: &(impl Debug + ?Sized)) -> Vec<String> {
    use std::fmt::Write;
    vec![
        limited(|w| write!(w, "{v:?}")), limited(|w| write!(w, "{v:#9?}")),
        format!("{v:?}"), format!("{v:#?}"), format!("{v:8?}"), format!("{v:<9?}|"), format!("{v:+?}"),
        format!("{v:08.2?}"), format!("{v:x?}"), format!("{v:*^12?}"),
    ]
}

fn disp(v: &(impl Display + ?Sized)) -> Vec<String> {
    use std::fmt::Write;
    vec![
        limited(|w| write!(w, "{v}")), limited(|w| write!(w, "{v:-^9}")),
        format!("{v}"), format!("{v:#}"), format!("{v:8}"), format!("{v:<9}|"), format!("{v:+}"),
        format!("{v:07.1}"), format!("{v:*^12}"), format!("{v:.2}"), v.to_string(),
    ]
}

fn same<X: PartialEq + Debug>(what: &str, name: &str, got: X, exp: X) {
    if got != exp {
        report(T, format!("{what} of {name} gives {got:?}, expected {exp:?}"));
    }
}

macro_rules! partial {
    ($cx:expr, $name:expr, $w:expr, $ty:ty, $a:expr, $b:expr) => {{
        let (a, b): (&$ty, &$ty) = ($a, $b);
        let (x, y) = ($w(a.clone()), $w(b.clone()));
        same("comparison", $name, all(&x, &y), all(a, b));
        same("comparison", $name, all(&y, &x), all(b, a));
        // With itself and with equal one.
        same("comparison with itself", $name, all(&x, &x), all(a, a));
        let z = $w(a.clone());
        same("comparison with a copy", $name, all(&x, &z), all(a, a));
        same("debug form", $name, dbg(&x), dbg(a));
        same("display form", $name, disp(&x), disp(a));
        let (d, r): (&$ty, &$ty) = (&*x, AsRef::<$ty>::as_ref(&x));
        let w: &$ty = Borrow::<$ty>::borrow(&x);
        same("address of views", $name, (d as *const $ty as usize, w as *const $ty as usize),
            (r as *const $ty as usize, r as *const $ty as usize));
        $cx.step(1, all(a, b).1.map_or(7, |o| (o as i8 + 1) as u64));
    }};
}

macro_rules! total {
    ($cx:expr, $name:expr, $w:expr, $ty:ty, $h:ty, $vals:expr) => {{
        let vals: &Vec<$ty> = $vals;
        let (a, b) = (&vals[0], &vals[1]);
        partial!($cx, $name, $w, $ty, a, b);
        let (x, y) = ($w(a.clone()), $w(b.clone()));
        same("cmp", $name, x.cmp(&y), a.cmp(b));
        same("hash", $name, told(&x), told(a));
        same("hash", $name, told(&y), told(b));
        same("max", $name, format!("{:?}", (&x).max(&y)), format!("{:?}", a.max(b)));
        // Lookups by the borrowed form.
        let mut t: HashMap<$h, usize> = HashMap::new();
        let mut o: BTreeMap<$h, usize> = BTreeMap::new();
        let mut t0: HashMap<$ty, usize> = HashMap::new();
        let mut o0: BTreeMap<$ty, usize> = BTreeMap::new();
        for (i, v) in vals.iter().enumerate().skip(1) {
            same("insertion to the table", $name, t.insert($w(v.clone()), i), t0.insert(v.clone(), i));
            same("insertion to the tree", $name, o.insert($w(v.clone()), i), o0.insert(v.clone(), i));
        }
        for v in vals.iter() {
            same("lookup by the borrowed form", $name, t.get::<$ty>(v), t0.get(v));
            same("lookup by the borrowed form", $name, o.get::<$ty>(v), o0.get(v));
            same("lookup", $name, t.get(&$w(v.clone())), t0.get(v));
        }
        same("order", $name, o.values().copied().collect::<Vec<_>>(), o0.values().copied().collect::<Vec<_>>());
        let mut s: Vec<$h> = vals.iter().map(|v| $w(v.clone())).collect();
        let mut s0 = vals.clone();
        s.sort();
        s0.sort();
        same("sorted order", $name, format!("{s:?}"), format!("{s0:?}"));
        $cx.step(2, vals.len() as u64 * 16 + t.len() as u64);
    }};
}

macro_rules! families {
    ($m:ident, $cx:expr, $ty:ty, $($rest:expr),*) => {{
        match $cx.rng.below(4) {
            0 => $m!($cx, "Box", LBox::new, $ty, $($rest),*),
            1 => $m!($cx, "Rc", Rc::new, $ty, $($rest),*),
            2 => $m!($cx, "Arc", Arc::new, $ty, $($rest),*),
            _ => $m!($cx, "Urc", Urc::new, $ty, $($rest),*),
        }
    }};
}

macro_rules! families_total {
    ($cx:expr, $ty:ty, $vals:expr) => {{
        let v = $vals;
        match $cx.rng.below(4) {
            0 => total!($cx, "Box", LBox::new, $ty, LBox<$ty>, &v),
            1 => total!($cx, "Rc", Rc::new, $ty, Rc<$ty>, &v),
            2 => total!($cx, "Arc", Arc::new, $ty, Arc<$ty>, &v),
            _ => total!($cx, "Urc", Urc::new, $ty, Urc<$ty>, &v),
        }
    }};
}

/// Handles which share one value are not compared by the address.
fn shared(cx: &mut Ctx) {
    let f = float(&mut cx.rng);
    let (r, a, u) = (Rc::new(f), Arc::new(f), Urc::new(f));
    same("comparison of sharing handles", "Rc", all(&r, &r.clone()), all(&f, &f));
    same("comparison of sharing handles", "Arc", all(&a, &a.clone()), all(&f, &f));
    same("comparison of sharing handles", "Urc", all(&u, &u.clone()), all(&f, &f));
    same("pointer form", "Arc", format!("{a:p}"), format!("{:p}", &*a as *const f64));
    same("pointer form", "Urc", format!("{u:p}"), format!("{:p}", &*u as *const f64));
    same("pointer form", "Arc", format!("{a:#20p}"), format!("{:#20p}", &*a as *const f64));
    same("pointer form", "Urc", format!("{u:#20p}"), format!("{:#20p}", &*u as *const f64));
    let p = Part(cx.rng.below(3) as u8, 5);
    let q = Part(cx.rng.below(3) as u8, 6);
    let (x, y) = (Arc::new(p.clone()), Arc::new(q.clone()));
    same("comparison", "Arc", x == y, p == q);
    same("default", "Arc", *Arc::<u32>::default(), 0);
    same("default", "Urc", *Urc::<u32>::default(), 0);
    cx.step(3, f.to_bits() >> 50);
}

fn seqs(cx: &mut Ctx) {
    macro_rules! lists {
        ($ty:ty, $gen:expr) => {{
            let (n, mut k) = (size(&mut cx.rng), size(&mut cx.rng));
            let mut a: Vec<$ty> = vec![];
            for _ in 0..n {
                let v = $gen(&mut cx.rng);
                a.push(v);
            }
            let mut b: Vec<$ty> = match cx.rng.below(4) {
                0 | 1 => a[..k.min(n)].to_vec(),
                2 => {
                    // Differs at one place.
                    let mut b = a.clone();
                    k = n;
                    if n > 0 {
                        let at = cx.rng.below(n);
                        b[at] = $gen(&mut cx.rng);
                    }
                    b
                }
                _ => vec![],
            };
            while b.len() < k {
                let v = $gen(&mut cx.rng);
                b.push(v);
            }
            cx.step(10, (n * 8 + k) as u64);
            (a, b)
        }};
    }
    macro_rules! part_of {
        ($name:expr, $x:expr, $y:expr, $a:expr, $b:expr) => {{
            same("comparison", $name, all(&$x, &$y), all(&$a[..], &$b[..]));
            same("comparison", $name, all(&$y, &$x), all(&$b[..], &$a[..]));
            same("comparison with itself", $name, all(&$x, &$x), all(&$a[..], &$a[..]));
            same("debug form", $name, dbg(&$x), dbg(&$a[..]));
            same("debug form", $name, dbg(&$y), dbg(&$b[..]));
        }};
    }
    macro_rules! total_of {
        ($name:expr, $x:expr, $y:expr, $a:expr, $b:expr) => {{
            part_of!($name, $x, $y, $a, $b);
            same("cmp", $name, $x.cmp(&$y), $a.cmp(&$b));
            same("hash", $name, told(&$x), told(&$a[..]));
            same("hash", $name, told(&$y), told(&$b[..]));
        }};
    }
    fn spilled<V: Clone + 'static, const N: usize>(a: &[V]) -> SmallVec<V, N> {
        let mut v = SmallVec::with_capacity(a.len() + N + 1);
        v.extend(a.iter().cloned());
        v
    }
    match cx.rng.below(7) {
        6 => {
            let wide = cx.rng.chance(1, 2);
            let (a, b) = lists!(i32, |r: &mut Rng| if wide { (r.next() as i32) >> r.below(32) } else { r.below(5) as i32 - 2 });
            match cx.rng.below(4) {
                0 => total_of!("Vec", LVec::from(&a[..]), LVec::from(&b[..]), a, b),
                1 => total_of!("SmallVec", SmallVec::<_, 4>::from(&a[..]), SmallVec::<_, 4>::from(&b[..]), a, b),
                2 => total_of!("Box<[T]>", LVec::from(&a[..]).into_boxed_slice(), LVec::from(&b[..]).into_boxed_slice(), a, b),
                _ => total_of!("SmallVec", SmallVec::<_, 16>::from(&a[..]), spilled::<_, 16>(&b[..]), a, b),
            }
        }
        0 => {
            let (a, b) = lists!(f64, float);
            match cx.rng.below(4) {
                0 => part_of!("Vec", LVec::from(&a[..]), LVec::from(&b[..]), a, b),
                1 => part_of!("SmallVec", SmallVec::<_, 2>::from(&a[..]), SmallVec::<_, 2>::from(&b[..]), a, b),
                2 => part_of!("Box<[T]>", LVec::from(&a[..]).into_boxed_slice(), LVec::from(&b[..]).into_boxed_slice(), a, b),
                _ => part_of!("SmallVec", SmallVec::<_, 8>::from(&a[..]), spilled::<_, 8>(&b[..]), a, b),
            }
        }
        1 => {
            let (a, b) = lists!(Odd, |r: &mut Rng| Odd(r.below(30) as i32));
            match cx.rng.below(3) {
                0 => part_of!("Vec", LVec::from(&a[..]), LVec::from(&b[..]), a, b),
                1 => part_of!("SmallVec", SmallVec::<_, 2>::from(&a[..]), SmallVec::<_, 2>::from(&b[..]), a, b),
                _ => part_of!("SmallVec", SmallVec::<_, 4>::from(&a[..]), spilled::<_, 4>(&b[..]), a, b),
            }
        }
        2 => {
            let (a, b) = lists!(Part, |r: &mut Rng| Part(r.below(3) as u8, r.below(100) as u32));
            match cx.rng.below(4) {
                0 => total_of!("Vec", LVec::from(&a[..]), LVec::from(&b[..]), a, b),
                1 => total_of!("SmallVec", SmallVec::<_, 2>::from(&a[..]), SmallVec::<_, 2>::from(&b[..]), a, b),
                2 => total_of!("Box<[T]>", LVec::from(&a[..]).into_boxed_slice(), LVec::from(&b[..]).into_boxed_slice(), a, b),
                _ => total_of!("SmallVec", SmallVec::<_, 3>::from(&a[..]), spilled::<_, 3>(&b[..]), a, b),
            }
        }
        3 => {
            // Lookups by slices.
            let wide = cx.rng.chance(1, 2);
            let (a, b) = lists!(u8, |r: &mut Rng| if wide { r.next() as u8 } else { r.below(3) as u8 });
            total_of!("Vec", LVec::from(&a[..]), LVec::from(&b[..]), a, b);
            total_of!("SmallVec", SmallVec::<_, 2>::from(&a[..]), SmallVec::<_, 2>::from(&b[..]), a, b);
            let mut t = HashMap::new();
            t.insert(LVec::from(&a[..]), 1);
            same("lookup by slice", "Vec", t.get(&b[..]).is_some(), a == b);
            let mut t = HashMap::new();
            t.insert(spilled::<_, 4>(&a[..]), 1);
            same("lookup by slice", "SmallVec", t.get(&b[..]).is_some(), a == b);
            same("lookup of inline by heap", "SmallVec", t.contains_key(&SmallVec::<_, 4>::from(&b[..])), a == b);
            let mut t = BTreeSet::new();
            t.insert(LVec::from(&a[..]));
            same("lookup by slice", "Vec", t.contains(&b[..]), a == b);
            let mut t = BTreeSet::new();
            t.insert(SmallVec::<_, 2>::from(&a[..]));
            same("lookup by slice", "SmallVec", t.contains(&b[..]), a == b);
            let v = LVec::from(&a[..]);
            let s = SmallVec::<_, 2>::from(&a[..]);
            same("views", "Vec", (AsRef::<[u8]>::as_ref(&v), Borrow::<[u8]>::borrow(&v), &*v), (&a[..], &a[..], &a[..]));
            same("views", "SmallVec", (AsRef::<[u8]>::as_ref(&s), Borrow::<[u8]>::borrow(&s), &*s), (&a[..], &a[..], &a[..]));
        }
        4 => {
            // Nested.
            let (a, b) = lists!(String, text);
            let f = |v: &Vec<String>| v.iter().map(|s| LString::from(&s[..])).collect::<LVec<LString>>();
            let (x, y) = (f(&a), f(&b));
            same("comparison", "Vec<String>", all(&x, &y), all(&a, &b));
            same("cmp", "Vec<String>", x.cmp(&y), a.cmp(&b));
            same("hash", "Vec<String>", told(&x), told(&a[..]));
            same("debug form", "Vec<String>", dbg(&x), dbg(&a));
            let g = |v: &Vec<String>| v.iter().map(|s| Rc::new(LString::from(&s[..]))).collect::<SmallVec<Rc<LString>, 2>>();
            let (x, y) = (g(&a), g(&b));
            same("comparison", "SmallVec<Rc<String>>", all(&x, &y), all(&a, &b));
            same("hash", "SmallVec<Rc<String>>", told(&x), told(&a[..]));
            same("debug form", "SmallVec<Rc<String>>", dbg(&x), dbg(&a));
        }
        _ => {
            let a = text(&mut cx.rng);
            let b = like(&mut cx.rng, &a);
            let (x, y) = (LString::from(&a[..]), LString::from(&b[..]));
            same("comparison", "String", all(&x, &y), all(&a, &b));
            same("cmp", "String", x.cmp(&y), a.cmp(&b));
            same("hash", "String", told(&x), told(&a[..]));
            same("debug form", "String", dbg(&x), dbg(&a));
            same("display form", "String", disp(&x), disp(&a));
            let mut t = HashMap::new();
            t.insert(x.clone(), 1);
            same("lookup by str", "String", t.contains_key(&b[..]), a == b);
            let mut t = BTreeSet::new();
            t.insert(x.clone());
            same("lookup by str", "String", t.contains(&b[..]), a == b);
            same("views", "String", (AsRef::<str>::as_ref(&x), Borrow::<str>::borrow(&x), &*x), (&a[..], &a[..], &a[..]));
            cx.step(11, (a.len() * 16 + b.len()) as u64);
        }
    }
}

fn handles(cx: &mut Ctx) {
    match cx.rng.below(9) {
        0 | 1 => {
            let (a, b) = (float(&mut cx.rng), float(&mut cx.rng));
            families!(partial, cx, f64, &a, &b);
        }
        2 | 3 => {
            let (a, b) = (Odd(cx.rng.below(30) as i32), Odd(cx.rng.below(30) as i32));
            families!(partial, cx, Odd, &a, &b);
        }
        4 => {
            let wide = cx.rng.chance(1, 2);
            let v: Vec<i64> = (0..6)
                .map(|_| if wide { (cx.rng.next() as i64) >> cx.rng.below(64) } else { cx.rng.below(9) as i64 - 4 })
                .collect();
            families_total!(cx, i64, v)
        }
        5 | 6 => {
            let v: Vec<Part> = (0..6).map(|_| Part(cx.rng.below(4) as u8, cx.rng.below(50) as u32)).collect();
            families_total!(cx, Part, v)
        }
        7 => {
            let v = texts(&mut cx.rng, 6);
            families_total!(cx, String, v)
        }
        _ => shared(cx),
    }
}

pub fn cmp(cx: &mut Ctx) {
    set_own_tags(T);
    let n = if cfg!(miri) { 4 } else { 12 };
    for _ in 0..n {
        if tainted() {
            return;
        }
        if cx.rng.chance(1, 2) {
            handles(cx)
        } else {
            seqs(cx)
        }
    }
    note!("  compared");
    if cx.a0.live_blocks() != 0 && !tainted() {
        report(&["C20", "C06"], format!("{} blocks remain", cx.a0.live_blocks()));
    }
}
