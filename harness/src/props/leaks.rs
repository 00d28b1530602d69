//! C29: nothing allocated is kept. The histories are the cases of the other properties.

use super::Prop;
use crate::engine::{clip, mix, Check, Ctx, Res, Src};
use crate::{ensure, watch};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const C29: Prop = Prop {
    id: "C29",
    check: c29,
    quick: 40_000,
    thorough: 4_000_000,
    rule: "a case is a case of another property (encoding, untrusted bytes, copying, key tables, scopes, owned values, mutable collections, serde, refused calls), run once to settle what is made once, and then repeated exactly: the number of live allocations must not rise with every repetition; non-trivial: the case is non-trivial for the property it is taken from; distinct by property and case",
    configs: &["chk", "rel"],
};

const FROM: &[(&str, Check, u32)] = &[
    ("C01", super::basic::C01.check, 4),
    ("C04", super::untrusted::C04.check, 8),
    ("C06", super::untrusted::C06.check, 2),
    ("C07", super::encoder::C07.check, 6),
    ("C09", super::encoder::C09.check, 4),
    ("C10", super::keys::C10.check, 3),
    ("C11", super::keys::C11.check, 4),
    ("C12", super::scopes::C12.check, 6),
    ("C14", super::scopes::C14.check, 8),
    ("C15", super::mutable::C15.check, 8),
    ("C16", super::mutable::C16.check, 8),
    ("C17", super::mutable::C17.check, 6),
    ("C18", super::serdes::C18.check, 4),
    ("C19", super::serdes::C19.check, 6),
    ("C20", super::serdes::C20.check, 2),
    ("C22", super::untrusted::C22.check, 4),
    ("C23", super::encoder::C23.check, 3),
    ("C28", super::keys::C28.check, 4),
];

/// The case, and how many allocations are live after it that were not before.
fn run(check: Check, s: &mut Src, verbose: bool) -> (Option<Ctx>, i64) {
    let before = watch::live();
    let mut cx = Ctx { verbose, ..Ctx::default() };
    let ok = matches!(catch_unwind(AssertUnwindSafe(|| check(s, &mut cx))), Ok(Ok(())));
    crate::engine::take_panic();
    if verbose && ok {
        return (Some(cx), 0);
    }
    let fp = cx.case_nontrivial;
    drop(cx);
    let after = watch::live();
    (ok.then(|| Ctx { case_nontrivial: fp, ..Ctx::default() }), after - before)
}

fn c29(s: &mut Src, cx: &mut Ctx) -> Res {
    let weights: [u32; FROM.len()] = std::array::from_fn(|i| FROM[i].2);
    let i = s.weighted(&weights);
    let (name, check, _) = FROM[i];
    let start = s.taken.len();
    let (first, _) = run(check, s, cx.verbose);
    cx.note(|| format!("a case of {name}"));
    let Some(first) = first else {
        cx.class("left out: the case itself fails");
        return Ok(());
    };
    for n in first.notes {
        cx.note(|| n);
    }
    cx.class(name);
    if let Some(fp) = first.case_nontrivial {
        cx.nontrivial(mix(i as u64, fp));
    }
    let choices = s.taken[start..].to_vec();
    // What is made once, or grows now and then (a map, a list of thread-locals), does not grow every time.
    let mut kept = Vec::new();
    for _ in 0..4 {
        let mut again = Src::replay(choices.clone());
        again.taken.reserve(choices.len() + 16);
        let before = watch::live();
        let (ok, _) = run(check, &mut again, false);
        let failed = ok.is_none();
        drop(ok);
        let more = watch::live() - before;
        cx.sub += 1;
        if failed || more <= 0 {
            return Ok(());
        }
        kept.push(more);
    }
    ensure!(false, "every repetition of this case of {name} leaves more allocations behind: {}", clip(&format!("{kept:?}")));
    Ok(())
}
