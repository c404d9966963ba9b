mod depend;
mod gen;
mod misc;
mod seal;
mod vde;

fn main() {
    pbt::main(&[
        ("C11", vde::c11),
        ("C12", vde::c12),
        ("C13", depend::c13),
        ("C14", seal::c14),
        ("C15", seal::c15),
        ("C16", seal::c16),
        ("C17", seal::c17),
        ("C18", misc::c18),
        ("C19", seal::c19),
        ("C20", misc::c20),
        ("C21", misc::c21),
        ("C22", misc::c22),
    ], &[("iv", misc::probe_iv), ("challenges", misc::probe_challenges), ("far blocks", seal::probe_prepare), ("far originals", seal::probe_compare)])
}
