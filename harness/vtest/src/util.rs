use vcore::Out;

pub fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
