mod basic;
mod circuits;
mod gen;
mod prove;
mod r1cs;
mod space;

fn main() {
    pbt::main(&[
        ("C01", basic::c01),
        ("C02", basic::c02),
        ("C03", space::c03),
        ("C04", space::c04),
        ("C05", prove::c05),
        ("C06", prove::c06),
        ("C07", circuits::c07),
        ("C08", circuits::c08),
        ("C09", circuits::c09),
        ("C10", basic::c10),
    ], &[("draws", basic::probe_draws), ("far cells", space::probe_far)])
}
