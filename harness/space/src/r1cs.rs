//! Layout-independent analysis of rank-1 constraint systems.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, OptimizationGoal, SynthesisMode};
use pbt::Prng;
use std::collections::{BTreeMap, BTreeSet};

pub type Row = Vec<(usize, Fr)>;

#[derive(Clone, PartialEq)]
pub struct Sys {
    pub a: Vec<Row>,
    pub b: Vec<Row>,
    pub c: Vec<Row>,
    pub ninst: usize,
    pub nwit: usize,
}

/// A system together with the assignment its circuit computed: z = (1, publics, witnesses).
pub struct Filled {
    pub sys: Sys,
    pub z: Vec<Fr>,
}

fn norm(m: &[Vec<(Fr, usize)>]) -> Vec<Row> {
    m.iter()
        .map(|r| {
            let mut t: BTreeMap<usize, Fr> = BTreeMap::new();
            for (k, i) in r {
                *t.entry(*i).or_insert_with(Fr::zero) += k;
            }
            t.into_iter().filter(|(_, v)| !v.is_zero()).collect()
        })
        .collect()
}

pub fn synth<C: ConstraintSynthesizer<Fr>>(circuit: C, setup: bool) -> Result<Filled, String> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::None);
    cs.set_mode(if setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: true } });
    circuit.generate_constraints(cs.clone()).map_err(|e| format!("synthesis fails: {}", e))?;
    cs.finalize();
    let m = cs.to_matrices().ok_or("no matrices")?;
    let sys = Sys {
        a: norm(&m.a),
        b: norm(&m.b),
        c: norm(&m.c),
        ninst: m.num_instance_variables,
        nwit: m.num_witness_variables,
    };
    let mut z = vec![];
    if !setup {
        let inner = cs.borrow().unwrap();
        z.extend_from_slice(&inner.instance_assignment);
        z.extend_from_slice(&inner.witness_assignment);
        if z.len() != sys.ninst + sys.nwit {
            return Err("assignment and constraint system differ in size".into());
        }
    }
    Ok(Filled { sys, z })
}

pub fn dot(r: &Row, z: &[Fr]) -> Fr {
    let mut s = Fr::zero();
    for (i, k) in r {
        if k.is_one() {
            s += z[*i];
        } else {
            s += z[*i] * k;
        }
    }
    s
}

impl Sys {
    pub fn len(&self) -> usize {
        self.a.len()
    }
    pub fn row_ok(&self, i: usize, z: &[Fr]) -> bool {
        dot(&self.a[i], z) * dot(&self.b[i], z) == dot(&self.c[i], z)
    }
    pub fn unsat(&self, z: &[Fr]) -> Option<usize> {
        (0..self.len()).find(|i| !self.row_ok(*i, z))
    }
    pub fn sat(&self, z: &[Fr]) -> bool {
        self.unsat(z).is_none()
    }
    /// first difference between two systems, if any
    pub fn diff(&self, o: &Sys) -> Option<String> {
        if (self.ninst, self.nwit) != (o.ninst, o.nwit) {
            return Some(format!("{}+{} variables vs {}+{}", self.ninst, self.nwit, o.ninst, o.nwit));
        }
        if self.len() != o.len() {
            return Some(format!("{} constraints vs {}", self.len(), o.len()));
        }
        for i in 0..self.len() {
            if self.a[i] != o.a[i] || self.b[i] != o.b[i] || self.c[i] != o.c[i] {
                return Some(format!("constraint {} differs", i));
            }
        }
        None
    }
    /// columns that occur in some constraint
    pub fn used(&self) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        for m in [&self.a, &self.b, &self.c] {
            for r in m {
                s.extend(r.iter().map(|x| x.0));
            }
        }
        s
    }
    /// columns constrained to {0, 1} by a constraint of their own
    pub fn booleans(&self) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for i in 0..self.len() {
            let mut cols: BTreeSet<usize> = BTreeSet::new();
            for r in [&self.a[i], &self.b[i], &self.c[i]] {
                cols.extend(r.iter().map(|x| x.0).filter(|c| *c != 0));
            }
            if cols.len() != 1 {
                continue;
            }
            let col = *cols.iter().next().unwrap();
            let val = |r: &Row, v: Fr| -> Fr {
                r.iter().fold(Fr::zero(), |s, (c, k)| s + if *c == 0 { *k } else { v * k })
            };
            let f = |v: Fr| val(&self.a[i], v) * val(&self.b[i], v) - val(&self.c[i], v);
            if f(Fr::zero()).is_zero() && f(Fr::one()).is_zero() && !f(Fr::from(2u64)).is_zero() {
                out.insert(col);
            }
        }
        out
    }

    /// Dimension of the space of first-order changes of the used, non-fixed columns that keep
    /// every constraint satisfied at z.
    pub fn freedom(&self, z: &[Fr], fixed: &BTreeSet<usize>) -> (usize, Vec<usize>) {
        let unknown: BTreeSet<usize> =
            self.used().into_iter().filter(|c| *c != 0 && !fixed.contains(c)).collect();
        // Jacobian rows restricted to the unknown columns
        let mut rows: Vec<BTreeMap<usize, Fr>> = vec![];
        for i in 0..self.len() {
            let (av, bv) = (dot(&self.a[i], z), dot(&self.b[i], z));
            let mut t: BTreeMap<usize, Fr> = BTreeMap::new();
            for (c, k) in &self.a[i] {
                *t.entry(*c).or_insert_with(Fr::zero) += *k * bv;
            }
            for (c, k) in &self.b[i] {
                *t.entry(*c).or_insert_with(Fr::zero) += *k * av;
            }
            for (c, k) in &self.c[i] {
                *t.entry(*c).or_insert_with(Fr::zero) -= *k;
            }
            t.retain(|c, v| unknown.contains(c) && !v.is_zero());
            if !t.is_empty() {
                rows.push(t);
            }
        }
        // 1. singleton rows pin their column
        let mut by_col: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (i, r) in rows.iter().enumerate() {
            for c in r.keys() {
                by_col.entry(*c).or_default().push(i);
            }
        }
        let mut pinned: BTreeSet<usize> = BTreeSet::new();
        let mut queue: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].len() == 1).collect();
        while let Some(i) = queue.pop() {
            if rows[i].len() != 1 {
                continue;
            }
            let col = *rows[i].keys().next().unwrap();
            if !pinned.insert(col) {
                continue;
            }
            for j in &by_col[&col] {
                rows[*j].remove(&col);
                if rows[*j].len() == 1 {
                    queue.push(*j);
                }
            }
        }
        let mut rank = pinned.len();
        // 2. sparse elimination of the rest: always eliminate with the shortest row and, in it,
        //    the column that occurs in the fewest rows
        let mut rest: Vec<BTreeMap<usize, Fr>> = rows.into_iter().filter(|r| !r.is_empty()).collect();
        let mut colrows: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (i, r) in rest.iter().enumerate() {
            for c in r.keys() {
                colrows.entry(*c).or_default().insert(i);
            }
        }
        let mut order: BTreeSet<(usize, usize)> = rest.iter().enumerate().map(|(i, r)| (r.len(), i)).collect();
        let mut pivots: BTreeSet<usize> = pinned.clone();
        while let Some((len, i)) = order.pop_first() {
            if len == 0 {
                continue;
            }
            let row = std::mem::take(&mut rest[i]);
            let (&pc, _) = row.iter().min_by_key(|(c, _)| colrows[c].len()).unwrap();
            rank += 1;
            pivots.insert(pc);
            for c in row.keys() {
                colrows.get_mut(c).unwrap().remove(&i);
            }
            let inv = row[&pc].inverse().unwrap();
            let targets: Vec<usize> = colrows[&pc].iter().copied().collect();
            for j in targets {
                order.remove(&(rest[j].len(), j));
                let f = rest[j][&pc] * inv;
                for (c, v) in &row {
                    let e = rest[j].entry(*c).or_insert_with(Fr::zero);
                    *e -= f * v;
                    if e.is_zero() {
                        rest[j].remove(c);
                        colrows.get_mut(c).unwrap().remove(&j);
                    } else {
                        colrows.get_mut(c).unwrap().insert(j);
                    }
                }
                order.insert((rest[j].len(), j));
            }
        }
        let free: Vec<usize> = unknown.iter().copied().filter(|c| !pivots.contains(c)).collect();
        (unknown.len() - rank, free)
    }

    /// Try to make every constraint hold by changing columns outside `frozen`, starting from z:
    /// a violated constraint is repaired by solving it for one of its columns. Sound as an attack:
    /// only a fully satisfying assignment is returned.
    pub fn repair(&self, z: &[Fr], frozen: &BTreeSet<usize>, p: &mut Prng, latest_bias: bool, max_steps: usize) -> Option<Vec<Fr>> {
        let mut z = z.to_vec();
        let mut occ: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for i in 0..self.len() {
            for r in [&self.a[i], &self.b[i], &self.c[i]] {
                for (c, _) in r {
                    occ.entry(*c).or_default().insert(i);
                }
            }
        }
        let mut bad: BTreeSet<usize> = (0..self.len()).filter(|i| !self.row_ok(*i, &z)).collect();
        let mut steps = 0;
        while let Some(&i) = bad.iter().next() {
            steps += 1;
            if steps > max_steps {
                return None;
            }
            // candidate columns: occurring in exactly one of the three forms
            let mut cand: Vec<(usize, Fr)> = vec![]; // (column, new value)
            let (av, bv, cv) = (dot(&self.a[i], &z), dot(&self.b[i], &z), dot(&self.c[i], &z));
            let coef = |r: &Row, c: usize| r.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or_else(Fr::zero);
            let cols: BTreeSet<usize> =
                [&self.a[i], &self.b[i], &self.c[i]].iter().flat_map(|r| r.iter().map(|x| x.0)).collect();
            for c in cols {
                if c == 0 || frozen.contains(&c) {
                    continue;
                }
                let (ka, kb, kc) = (coef(&self.a[i], c), coef(&self.b[i], c), coef(&self.c[i], c));
                // (av + ka d)(bv + kb d) = cv + kc d, linear in d when ka*kb = 0
                if !(ka * kb).is_zero() {
                    continue;
                }
                let slope = ka * bv + kb * av - kc;
                if let Some(inv) = slope.inverse() {
                    let d = (cv - av * bv) * inv;
                    cand.push((c, z[c] + d));
                }
            }
            if cand.is_empty() {
                return None;
            }
            let k = if latest_bias && p.below(16) != 0 { cand.len() - 1 } else { p.below(cand.len() as u64) as usize };
            let (c, v) = cand[k];
            z[c] = v;
            for j in &occ[&c] {
                if self.row_ok(*j, &z) {
                    bad.remove(j);
                } else {
                    bad.insert(*j);
                }
            }
        }
        Some(z)
    }

    /// For every column the constraints it occurs in.
    pub fn occurrences(&self) -> Vec<Vec<usize>> {
        let mut occ = vec![vec![]; self.ninst + self.nwit];
        for i in 0..self.len() {
            let cols: BTreeSet<usize> = [&self.a[i], &self.b[i], &self.c[i]].iter().flat_map(|r| r.iter().map(|x| x.0)).collect();
            for c in cols {
                occ[c].push(i);
            }
        }
        occ
    }

    /// The columns outside `fixed` that can be solved for in constraint i, with the value that makes it hold;
    /// columns in `bools` only when that value is 0 or 1.
    fn solutions(&self, i: usize, z: &[Fr], fixed: &BTreeSet<usize>, bools: &BTreeSet<usize>) -> Vec<(usize, Fr)> {
        let (av, bv, cv) = (dot(&self.a[i], z), dot(&self.b[i], z), dot(&self.c[i], z));
        let coef = |r: &Row, c: usize| r.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or_else(Fr::zero);
        let cols: BTreeSet<usize> = [&self.a[i], &self.b[i], &self.c[i]].iter().flat_map(|r| r.iter().map(|x| x.0)).collect();
        let mut out = vec![];
        for c in cols {
            if c == 0 || fixed.contains(&c) {
                continue;
            }
            let (ka, kb, kc) = (coef(&self.a[i], c), coef(&self.b[i], c), coef(&self.c[i], c));
            if !(ka * kb).is_zero() {
                continue;
            }
            if let Some(inv) = (ka * bv + kb * av - kc).inverse() {
                let v = z[c] + (cv - av * bv) * inv;
                if !bools.contains(&c) || v.is_zero() || v.is_one() {
                    out.push((c, v));
                }
            }
        }
        out
    }

    /// Like `repair`, but every column is changed at most once, boolean columns stay boolean, and a choice that
    /// leaves some constraint without a solution is avoided. `changed` are the columns in which z already
    /// differs from a satisfying assignment.
    pub fn walk(&self, occ: &[Vec<usize>], z: &[Fr], changed: &[usize], frozen: &BTreeSet<usize>, bools: &BTreeSet<usize>, p: &mut Prng) -> Option<Vec<Fr>> {
        let mut z = z.to_vec();
        let mut fixed = frozen.clone();
        fixed.extend(changed);
        let mut bad: BTreeSet<usize> = changed.iter().flat_map(|c| occ[*c].iter().copied()).filter(|i| !self.row_ok(*i, &z)).collect();
        let wild = p.below(3) == 0;
        while let Some(&i) = bad.iter().next() {
            let mut cand = self.solutions(i, &z, &fixed, bools);
            loop {
                if cand.is_empty() {
                    return None;
                }
                let bit = cand.iter().position(|c| bools.contains(&c.0));
                let k = match bit {
                    Some(k) if p.below(2) == 0 => k,
                    _ if wild && p.below(4) == 0 => p.below(cand.len() as u64) as usize,
                    _ => cand.len() - 1,
                };
                let (c, v) = cand.remove(k);
                let old = std::mem::replace(&mut z[c], v);
                fixed.insert(c);
                let dead = occ[c].iter().any(|j| *j != i && !self.row_ok(*j, &z) && self.solutions(*j, &z, &fixed, bools).is_empty());
                if dead && !cand.is_empty() {
                    z[c] = old;
                    fixed.remove(&c);
                    continue;
                }
                if dead {
                    return None;
                }
                for j in &occ[c] {
                    if self.row_ok(*j, &z) {
                        bad.remove(j);
                    } else {
                        bad.insert(*j);
                    }
                }
                break;
            }
        }
        if self.sat(&z) {
            Some(z)
        } else {
            None
        }
    }
}

/// Columns whose value equals `want[t]` in every run t.
/// Columns with the same value in every run.
pub fn columns_constant(runs: &[Vec<Fr>]) -> BTreeSet<usize> {
    (0..runs[0].len()).filter(|c| runs.iter().all(|z| z[*c] == runs[0][*c])).collect()
}

pub fn columns_equal(runs: &[Vec<Fr>], want: &[Fr], only: &BTreeSet<usize>) -> Vec<usize> {
    only.iter().copied().filter(|c| runs.iter().zip(want).all(|(z, w)| z[*c] == *w)).collect()
}
