//! Histories over `Rc`, `Arc`, `Urc` in one thread.
use crate::elem::*;
use crate::fam::*;
use crate::run::*;
use crate::note;
use crate::shared::*;

fn cfg(cx: &mut Ctx) -> SCfg {
    let n = if cfg!(miri) { cx.rng.range(10, 25) } else { cx.rng.range(15, 80) };
    SCfg { bombs: false, oom: false, scopes: false, steps: n * cx.scale.max(1) }
}

fn go<F: Fam>(cx: &mut Ctx, c: SCfg) {
    match cx.rng.below(if cfg!(miri) { 8 } else { 17 }) {
        16 => Sim::<F, TokPage>::run(cx, c),
        0 => Sim::<F, TokBig>::run(cx, c),
        1 => Sim::<F, TokAl>::run(cx, c),
        2 => Sim::<F, Tok1>::run(cx, c),
        3 => Sim::<F, TokZ>::run(cx, c),
        _ => Sim::<F, Tok>::run(cx, c),
    }
}

/// Handles of plain data: nothing but the block has to be released.
fn plain<F: Fam, T: Copy + PartialEq + std::fmt::Debug + 'static>(cx: &mut Ctx, mk: fn(u64) -> T) {
    let own = F::OWN;
    let uniq = F::UNIQ;
    let name = std::any::type_name::<T>();
    note!("-- {} of plain {name}", F::KIND);
    cx.sig(std::mem::size_of::<T>() as u64 ^ 0xF1A1);
    let mut val = mk(cx.rng.next());
    let mut strong = vec![F::new(val)];
    let mut weak: Vec<F::W<T>> = vec![];
    // Blocks of cells left by make_mut and their weak handles.
    let blocks0 = cx.a0.live_blocks();
    let steps = if cfg!(miri) { 8 } else { cx.rng.range(5, 40) };
    for _ in 0..steps {
        let k = cx.rng.below(9);
        let i = cx.rng.below(strong.len());
        let sole = strong.len() == 1;
        let uq = sole && weak.is_empty();
        match k {
            0 | 1 if strong.len() < 6 => strong.push(F::dup(&strong[i])),
            2 if !sole => drop(strong.swap_remove(i)),
            3 | 4 if weak.len() < 6 => weak.push(F::down(&strong[i])),
            5 if !weak.is_empty() => {
                let j = cx.rng.below(weak.len());
                drop(weak.swap_remove(j))
            }
            6 => {
                let nv = mk(cx.rng.next());
                match F::get_mut(&mut strong[i]) {
                    Some(v) => {
                        if !uq {
                            report(uniq, format!("get_mut of plain {name} is given to a handle that is not sole"));
                            return;
                        }
                        *v = nv;
                        val = nv;
                    }
                    None if uq => report(uniq, format!("get_mut of plain {name} is refused to the sole handle")),
                    None => {}
                }
            }
            7 => {
                let s = strong.swap_remove(i);
                match F::try_unwrap(s) {
                    Ok(v) => {
                        if !sole || v != val {
                            report(uniq, format!("try_unwrap of plain {name} gives {v:?} of {val:?}, sole {sole}"));
                            std::mem::forget((strong, weak));
                            return;
                        }
                        // Weak handles still keep the block.
                        if !F::FENCES && cx.a0.live_blocks() - blocks0 != if weak.is_empty() { -1 } else { 0 } {
                            report(&["C06", own[0]], format!("block of plain {name} is released too early or too late"));
                        }
                        weak.clear();
                        if !F::FENCES && cx.a0.live_blocks() - blocks0 != -1 {
                            report(&["C06", own[0]], format!("block of plain {name} is leaked"));
                        }
                        strong.push(F::new(v));
                    }
                    Err(s) => {
                        if sole {
                            report(uniq, format!("try_unwrap of plain {name} is refused to the sole handle"));
                        }
                        strong.push(s);
                    }
                }
            }
            8 => {
                let nv = mk(cx.rng.next());
                let v = F::make_mut(&mut strong[i]);
                if *v != val {
                    report(uniq, format!("make_mut of plain {name} gives {v:?}, expected {val:?}"));
                }
                *v = nv;
                if uq {
                    val = nv;
                } else if sole {
                    // The weak handles remain with the old cell.
                    val = nv;
                    weak.clear();
                } else {
                    let s = strong.swap_remove(i);
                    if *s.as_ref() != nv || F::strong(&s) != 1 || F::weak(&s) != 0 {
                        report(uniq, format!("make_mut of plain {name} left {:?} with counts {} {}", s.as_ref(),
                            F::strong(&s), F::weak(&s)));
                    }
                }
            }
            _ => continue,
        }
        cx.step(k as u64 + 50, (strong.len() * 10 + weak.len()) as u64);
        for s in &strong {
            if *s.as_ref() != val || F::strong(s) != strong.len() || F::weak(s) != weak.len() {
                report(&[own[0], uniq[0]], format!("handle of plain {name} has {:?} and counts {} {}, expected {val:?} and {} {}",
                    s.as_ref(), F::strong(s), F::weak(s), strong.len(), weak.len()));
                std::mem::forget((strong, weak));
                return;
            }
            if F::as_ptr(s) as usize % std::mem::align_of::<T>() != 0 || !F::ptr_eq(s, &strong[0]) {
                report(own, format!("pointer of plain {name} is wrong"));
            }
        }
        for w in &weak {
            if F::wcounts(w).is_some_and(|c| c != (strong.len(), weak.len())) {
                report(own, format!("weak of plain {name} counts {:?}", F::wcounts(w)));
            }
        }
        if tainted() {
            std::mem::forget((strong, weak));
            return;
        }
    }
    let weak_last = cx.rng.chance(1, 2);
    if weak_last {
        strong.clear();
        for w in &weak {
            if F::wcounts(w).is_some_and(|c| c != (0, weak.len())) || F::upgrade(w).flatten().is_some() {
                report(own, format!("weak of plain {name} counts {:?} after the value is gone", F::wcounts(w)));
            }
        }
    }
    drop(weak);
    drop(strong);
    if cx.a0.live_blocks() + F::FENCES as isize != blocks0 - 1 {
        report(&["C06", own[0]], format!("{} blocks of plain {name} remain", cx.a0.live_blocks() + 1 - blocks0));
    }
    cx.count("plain_cases", 1);
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(128))]
struct Al128([u8; 3]);

fn plains<F: Fam>(cx: &mut Ctx) {
    match cx.rng.below(7) {
        0 => plain::<F, u8>(cx, |n| n as u8),
        1 => plain::<F, u64>(cx, |n| n),
        2 => plain::<F, ()>(cx, |_| ()),
        3 => plain::<F, [u64; 40]>(cx, |n| [n; 40]),
        4 => plain::<F, Al128>(cx, |n| Al128([n as u8; 3])),
        5 => plain::<F, Option<u16>>(cx, |n| if n % 4 == 0 { None } else { Some(n as u16) }),
        _ => plain::<F, &'static str>(cx, |n| ["", "a", "text", "other"][n as usize % 4]),
    }
}

fn any(cx: &mut Ctx, c: SCfg) {
    match cx.rng.below(3) {
        0 => go::<RcF>(cx, c),
        1 => go::<ArcF>(cx, c),
        _ => go::<UrcF>(cx, c),
    }
}

pub fn rc(cx: &mut Ctx) {
    if cx.rng.chance(1, 12) {
        return plains::<RcF>(cx);
    }
    let c = cfg(cx);
    go::<RcF>(cx, c)
}

pub fn arc(cx: &mut Ctx) {
    if cx.rng.chance(1, 12) {
        return plains::<ArcF>(cx);
    }
    let c = cfg(cx);
    go::<ArcF>(cx, c)
}

pub fn urc(cx: &mut Ctx) {
    if cx.rng.chance(1, 12) {
        return plains::<UrcF>(cx);
    }
    let c = cfg(cx);
    go::<UrcF>(cx, c)
}

pub fn panics(cx: &mut Ctx) {
    let c = SCfg { bombs: true, ..cfg(cx) };
    any(cx, c)
}

pub fn oom(cx: &mut Ctx) {
    let c = SCfg { oom: true, ..cfg(cx) };
    any(cx, c)
}

pub fn affinity(cx: &mut Ctx) {
    let c = SCfg { scopes: true, ..cfg(cx) };
    any(cx, c)
}
