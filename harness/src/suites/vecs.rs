//! Histories over `Vec` and `SmallVec`.
use crate::elem::*;
use crate::run::*;
use crate::seq::*;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec as LVec;

fn steps(cx: &mut Ctx) -> usize {
    let n = if cfg!(miri) { cx.rng.range(8, 18) } else { cx.rng.range(10, 60) };
    n * cx.scale.max(1)
}

fn vec_case(cx: &mut Ctx, cfg: Cfg) {
    match cx.rng.below(11) {
        10 if cx.rng.chance(1, 3) => Seq::<LVec<TokPage>, TokPage>::run(cx, cfg),
        10 => Seq::<LVec<Pl3>, Pl3>::run(cx, cfg),
        9 => Seq::<LVec<Pl48>, Pl48>::run(cx, cfg),
        8 => Seq::<LVec<Pl4>, Pl4>::run(cx, cfg),
        0 => Seq::<LVec<TokBig>, TokBig>::run(cx, cfg),
        1 => Seq::<LVec<TokAl>, TokAl>::run(cx, cfg),
        2 => Seq::<LVec<Tok1>, Tok1>::run(cx, cfg),
        3 => Seq::<LVec<TokZ>, TokZ>::run(cx, cfg),
        _ => Seq::<LVec<Tok>, Tok>::run(cx, cfg),
    }
}

fn small_case(cx: &mut Ctx, cfg: Cfg) {
    match cx.rng.below(17) {
        0 => Seq::<SmallVec<Tok, 0>, Tok>::run(cx, cfg),
        1 => Seq::<SmallVec<Tok, 1>, Tok>::run(cx, cfg),
        2 => Seq::<SmallVec<TokBig, 2>, TokBig>::run(cx, cfg),
        3 => Seq::<SmallVec<TokAl, 3>, TokAl>::run(cx, cfg),
        4 => Seq::<SmallVec<Tok1, 8>, Tok1>::run(cx, cfg),
        5 => Seq::<SmallVec<TokZ, 3>, TokZ>::run(cx, cfg),
        10 => Seq::<SmallVec<Tok, 16>, Tok>::run(cx, cfg),
        11 => Seq::<SmallVec<Tok1, 33>, Tok1>::run(cx, cfg),
        12 => Seq::<SmallVec<Tok, 100>, Tok>::run(cx, cfg),
        13 if cx.rng.chance(1, 3) => Seq::<SmallVec<TokPage, 2>, TokPage>::run(cx, cfg),
        13 => Seq::<SmallVec<Pl3, 5>, Pl3>::run(cx, cfg),
        14 => Seq::<SmallVec<Pl4, 8>, Pl4>::run(cx, cfg),
        15 => Seq::<SmallVec<Pl4, 0>, Pl4>::run(cx, cfg),
        16 => Seq::<SmallVec<Pl48, 3>, Pl48>::run(cx, cfg),
        6 | 7 => Seq::<SmallVec<Tok, 4>, Tok>::run(cx, cfg),
        _ => Seq::<SmallVec<Tok, 8>, Tok>::run(cx, cfg),
    }
}

fn base(cx: &mut Ctx, seq: &'static [&'static str]) -> Cfg {
    Cfg { bombs: false, oom: false, scopes: false, seq, steps: steps(cx) }
}

pub fn vec(cx: &mut Ctx) {
    set_own_tags(&["C04", "C01", "C21"]);
    if !cfg!(miri) && cx.rng.chance(1, 120) {
        return crate::long::vec(cx);
    }
    let cfg = base(cx, &["C01"]);
    vec_case(cx, cfg)
}

pub fn small(cx: &mut Ctx) {
    set_own_tags(&["C04", "C02", "C21"]);
    if !cfg!(miri) && cx.rng.chance(1, 120) {
        return crate::long::small(cx);
    }
    let cfg = base(cx, &["C02"]);
    small_case(cx, cfg)
}

pub fn panics(cx: &mut Ctx) {
    set_own_tags(&["C05"]);
    let cfg = Cfg { bombs: true, ..base(cx, &["C05"]) };
    if cx.rng.chance(1, 2) { vec_case(cx, cfg) } else { small_case(cx, cfg) }
}

pub fn oom(cx: &mut Ctx) {
    set_own_tags(&["C07"]);
    let cfg = Cfg { oom: true, ..base(cx, &["C07"]) };
    if cx.rng.chance(1, 2) { vec_case(cx, cfg) } else { small_case(cx, cfg) }
}

pub fn affinity(cx: &mut Ctx) {
    set_own_tags(&["C12"]);
    let cfg = Cfg { scopes: true, ..base(cx, &["C12"]) };
    if cx.rng.chance(1, 2) { vec_case(cx, cfg) } else { small_case(cx, cfg) }
}
