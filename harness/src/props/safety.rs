//! C27 memory safety: the workloads of all other properties under sanitizers (see tools/safety.py).
//! Functional results are judged by the other checks; here only what the sanitizers report counts.
use crate::core::*;

type Case = (&'static str, fn(&mut Ctx) -> R);
thread_local! { static CASES: Vec<Case> = super::all().into_iter().filter(|p| p.id != "C27").map(|p| (p.id, p.run)).collect(); }

fn c27(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(1, 4) {
        if ctx.want_desc { ctx.note("a case of misuse (hostile arguments)".to_string()); }
        return super::misuse::misuse(ctx);
    }
    // every third case is a file, this is where foreign bytes come in
    let io = ctx.rng.chance(1, 3);
    let (id, run) = CASES.with(|c| {
        let l: Vec<Case> = c.iter().filter(|x| !io || ["C01", "C03", "C04", "C05"].contains(&x.0)).cloned().collect();
        *ctx.rng.pick(&l)
    });
    if ctx.want_desc { ctx.note(format!("a case of {}", id)); }
    match crate::guarded(|| run(ctx)) {
        Ok(Ok(())) => ctx.count(&format!("cases of {}", id), 1),
        Ok(Err(_)) => ctx.count("cases with functional findings (judged elsewhere)", 1),
        Err(_) => ctx.count("cases with panics (judged elsewhere)", 1),
    }
    ctx.nontrivial = true;
    Ok(())
}

/// the hostile arguments on their own, for the interpreter
pub fn misuse_prop() -> Prop {
    Prop { id: "MISUSE", rule: "", quick: 0, thorough: 0, run: super::misuse::misuse, probes: &[], must_see: &[], level: "exploration", assumptions: &[] }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C27", rule: "no report of AddressSanitizer, of the checks of unsafe preconditions (including valid UTF-8), or of the interpreter Miri",
            quick: 1_500_000, thorough: 40_000_000, run: c27, probes: &[], must_see: &["cases of C01", "cases of C03", "cases of C08", "cases of C12", "cases of C26", "misuse refused with a panic", "index container: get", "sequence: from view", "mesh: vertex", "topology: of a vertex", "liar: half edges", "source: ply", "tree: search", "text: parse"], level: "exploration",
            assumptions: &["the standard library is built with checks of its unsafe preconditions; leaks are not judged"] },
    ]
}
