//! C20: the action circuit against the action statement, over private and public inputs that
//! no constructor would produce, by evaluating the real constraint system.

use super::full::*;
use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base, Keys, Point, RNote, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use halo2_proofs::dev::MockProver;
use orchard::{
    builder::SpendInfo,
    circuit::{Circuit, Instance},
    keys::{FullViewingKey, SpendValidatingKey},
    note::{ExtractedNoteCommitment, Nullifier},
    primitives::redpallas::{self, SpendAuth},
    value::{ValueCommitTrapdoor, ValueCommitment},
    Proof,
};

/// The private inputs of the action statement (protocol specification, 4.18.4).
#[derive(Clone, Debug)]
struct Wit {
    path: [Base; 32],
    pos: u32,
    gd_old: [u8; 32],
    pkd_old: [u8; 32],
    v_old: u64,
    rho_old: Base,
    psi_old: Base,
    rcm_old: Scalar,
    cm_old: Point,
    alpha: Scalar,
    ak: Point,
    nk: Base,
    rivk: Scalar,
    gd_new: [u8; 32],
    pkd_new: [u8; 32],
    v_new: u64,
    psi_new: Base,
    rcm_new: Scalar,
    rcv: Scalar,
}
const BITS: [&str; 19] = [
    "path", "pos", "g_d_old", "pk_d_old", "v_old", "rho_old", "psi_old", "rcm_old", "cm_old", "alpha", "ak", "nk", "rivk",
    "g_d_new", "pk_d_new", "v_new", "psi_new", "rcm_new", "rcv",
];
const COLS: [&str; 9] = ["anchor", "cv_net x", "cv_net y", "nf_old", "rk x", "rk y", "cmx", "enable_spends", "enable_outputs"];

impl Wit {
    fn mix(&self, o: &Wit, mask: u32) -> Wit {
        let mut w = self.clone();
        macro_rules! take { ($($i:expr => $f:ident),*) => { $( if mask & (1 << $i) != 0 { w.$f = o.$f.clone(); } )* }; }
        take!(0 => path, 1 => pos, 2 => gd_old, 3 => pkd_old, 4 => v_old, 5 => rho_old, 6 => psi_old, 7 => rcm_old, 8 => cm_old,
              9 => alpha, 10 => ak, 11 => nk, 12 => rivk, 13 => gd_new, 14 => pkd_new, 15 => v_new, 16 => psi_new, 17 => rcm_new, 18 => rcv);
        w
    }
    fn nf(&self) -> Base {
        let k = refm::prf_nf(&self.nk, &self.rho_old) + self.psi_old;
        refm::extract(&(refm::nullifier_k() * refm::base_as_scalar(&k) + self.cm_old))
    }
    fn rk(&self) -> Point {
        self.ak + refm::spend_auth_g() * self.alpha
    }
    fn cv(&self) -> Point {
        refm::value_commit(self.v_old as i128 - self.v_new as i128, &self.rcv)
    }
    fn cmx(&self) -> Option<Base> {
        refm::note_commit(&self.gd_new, &self.pkd_new, self.v_new, &self.nf(), &self.psi_new, &self.rcm_new).map(|p| refm::extract(&p))
    }
    fn root(&self) -> Base {
        refm::merkle_root(&refm::extract(&self.cm_old), self.pos, &self.path)
    }
    /// The public inputs this witness comes closest to satisfying.
    fn fit(&self, es: bool, eo: bool) -> Cols {
        let (cvx, cvy) = refm::xy(&self.cv());
        let (rkx, rky) = refm::xy(&self.rk());
        Cols([self.root(), cvx, cvy, self.nf(), rkx, rky, self.cmx().unwrap_or(Base::zero()), Base::from(es as u64), Base::from(eo as u64)])
    }
    /// The action statement.
    fn holds(&self, c: &Cols) -> Vec<&'static str> {
        let c = &c.0;
        let mut bad = vec![];
        let mut need = |ok: bool, what| {
            if !ok {
                bad.push(what)
            }
        };
        need(
            refm::note_commit(&self.gd_old, &self.pkd_old, self.v_old, &self.rho_old, &self.psi_old, &self.rcm_old) == Some(self.cm_old),
            "old note commitment integrity",
        );
        need(self.v_old == 0 || self.root() == c[0], "path validity");
        need(refm::xy(&self.cv()) == (c[1], c[2]), "value commitment integrity");
        need(self.nf() == c[3], "nullifier integrity");
        need(refm::xy(&self.rk()) == (c[4], c[5]), "spend authority");
        let mut ak = self.ak.to_bytes();
        ak[31] &= 0x7f;
        let pkd = refm::commit_ivk(&ak, &self.nk, &self.rivk).map(|ivk| (refm::pt(&self.gd_old).unwrap() * refm::base_as_scalar(&ivk)).to_bytes());
        need(pkd == Some(self.pkd_old), "diversified address integrity");
        need(self.cmx() == Some(c[6]), "new note commitment integrity");
        need(self.v_old == 0 || c[7] == Base::one(), "enable spends");
        need(self.v_new == 0 || c[8] == Base::one(), "enable outputs");
        bad
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Cols([Base; 9]);

/// The real circuit's verdict.
fn satisfied(circuit: &Circuit, cols: &Cols, honest: bool) -> Result<bool, String> {
    let run = || match MockProver::run(11, circuit, vec![cols.0.to_vec()]) {
        Ok(p) => p.verify().is_ok(),
        Err(_) => false,
    };
    if honest {
        return Ok(run());
    }
    // A prover that fails to assign an inconsistent witness has no proof.
    Ok(std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).unwrap_or(false))
}

/// One action: the implementation's circuit and the reference's witness.
#[derive(Clone)]
struct Act {
    name: String,
    circuit: Circuit,
    w: Wit,
    /// Bytes of cv, rk, nf, cmx, anchor for `Instance::from_parts`.
    inst: [[u8; 32]; 5],
}
impl Act {
    fn instance(&self, es: bool, eo: bool) -> Result<Instance, String> {
        instance(&self.inst, es, eo)
    }
}
fn instance(b: &[[u8; 32]; 5], es: bool, eo: bool) -> Result<Instance, String> {
    let cv: ValueCommitment = Option::from(ValueCommitment::from_bytes(&b[0])).ok_or("cv does not parse")?;
    let rk = redpallas::VerificationKey::<SpendAuth>::try_from(b[1]).map_err(|_| "rk does not parse")?;
    let nf: Nullifier = Option::from(Nullifier::from_bytes(&b[2])).ok_or("nf does not parse")?;
    let cmx: ExtractedNoteCommitment = Option::from(ExtractedNoteCommitment::from_bytes(&b[3])).ok_or("cmx does not parse")?;
    Ok(Instance::from_parts(anchor(&refm::base(&b[4]).unwrap()), cv, nf, rk, cmx, es, eo))
}

/// A viewing key that may not come from a spending key.
#[derive(Clone)]
struct VKey {
    ak: [u8; 32],
    nk: Base,
    ext: refm::ScopeKeys,
    int: refm::ScopeKeys,
    fvk: FullViewingKey,
}
impl VKey {
    fn of(k: &Keys) -> Option<VKey> {
        VKey::new(&k.fvk())
    }
    fn new(f: &refm::Fvk) -> Option<VKey> {
        Some(VKey {
            ak: f.ak,
            nk: f.nk,
            ext: refm::scope_keys(f)?,
            int: refm::scope_keys(&refm::internal_fvk(f))?,
            fvk: FullViewingKey::from_bytes(&refm::fvk_bytes(f))?,
        })
    }
    fn scope(&self, internal: bool) -> &refm::ScopeKeys {
        if internal {
            &self.int
        } else {
            &self.ext
        }
    }
}

struct Spec {
    name: String,
    key: VKey,
    internal: bool,
    old: RNote,
    path: RPath,
    to: [u8; 43],
    v_new: u64,
    rseed_new: [u8; 32],
    alpha: Scalar,
    rcv: Scalar,
}
impl Spec {
    fn new(seed: u64, id: u64) -> Spec {
        let k = Key::new(seed, 300 + id);
        let key = VKey::of(&k.r).unwrap();
        let mut path = [Base::zero(); 32];
        for (l, h) in path.iter_mut().enumerate() {
            *h = rbase(seed, "c20sib", id * 64 + l as u64);
        }
        Spec {
            name: format!("action {id}"),
            old: rnote(k.addr(false, id as u128), 10 + id, rbase(seed, "c20rho", id), bytes32(seed, "c20rs", id)),
            key,
            internal: false,
            path: RPath { pos: u32::from_le_bytes(bytes32(seed, "c20pos", id)[..4].try_into().unwrap()), path },
            to: Key::new(seed, 400 + id).addr(false, 7 * id as u128),
            v_new: 3 + id,
            rseed_new: bytes32(seed, "c20rsn", id),
            alpha: rscalar(seed, "c20alpha", id),
            rcv: rscalar(seed, "c20rcv", id),
        }
    }
    fn named(mut self, n: impl Into<String>) -> Spec {
        self.name = n.into();
        self
    }
    fn scope(mut self, internal: bool, j: u128) -> Spec {
        self.internal = internal;
        self.old.addr = self.key.scope(internal).address_at(&refm::idx(j));
        self
    }
    fn act(&self) -> Result<Act, String> {
        let what = &self.name;
        let nf = self.old.nullifier(&self.key.nk);
        let new = rnote(self.to, self.v_new, nf, self.rseed_new);
        let info = SpendInfo::new(self.key.fvk.clone(), note(&self.old), self.path.real()).ok_or(format!("{what}: not spendable"))?;
        let rcv: ValueCommitTrapdoor = Option::from(ValueCommitTrapdoor::from_bytes(self.rcv.to_repr())).ok_or("rcv")?;
        let circuit = Circuit::from_action_context(info, note(&new), self.alpha, rcv).ok_or(format!("{what}: refused although rho is the nullifier"))?;
        let w = Wit {
            path: self.path.path,
            pos: self.path.pos,
            gd_old: refm::g_d(&self.old.d()).to_bytes(),
            pkd_old: self.old.pk_d(),
            v_old: self.old.v,
            rho_old: self.old.rho,
            psi_old: self.old.psi(),
            rcm_old: self.old.rcm(),
            cm_old: self.old.cm().ok_or("cm")?,
            alpha: self.alpha,
            ak: refm::pt(&self.key.ak).ok_or("ak")?,
            nk: self.key.nk,
            rivk: self.key.scope(self.internal).rivk,
            gd_new: refm::g_d(&new.d()).to_bytes(),
            pkd_new: new.pk_d(),
            v_new: self.v_new,
            psi_new: new.psi(),
            rcm_new: new.rcm(),
            rcv: self.rcv,
        };
        let inst = [w.cv().to_bytes(), w.rk().to_bytes(), nf.to_repr(), new.cmx().to_repr(), w.root().to_repr()];
        Ok(Act { name: self.name.clone(), circuit, w, inst })
    }
}

/// Honest actions at the edges of every input.
fn honest(seed: u64, thorough: bool) -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    let mut id = 10;
    let mut next = || {
        id += 1;
        Spec::new(seed, id)
    };
    for (vi, vo) in [(0, 0), (1, 0), (0, 1), (u64::MAX, 0), (0, u64::MAX), (u64::MAX, u64::MAX), (1 << 63, 1), (i64::MAX as u64, 1 << 63), (0x3ff, 0x400), (1 << 58, (1 << 58) - 1)] {
        let mut s = next();
        s.old.v = vi;
        s.v_new = vo;
        v.push(s.named(format!("values {vi} {vo}")));
    }
    for p in [0, 1, u32::MAX, 1 << 31, 0xaaaa_aaaa, 0x5555_5555, 1 << 16, 0xffff] {
        let mut s = next();
        s.path.pos = p;
        v.push(s.named(format!("position {p:#x}")));
    }
    for (i, j) in [0u128, (1 << 88) - 1, 5].into_iter().enumerate() {
        for internal in [false, true] {
            let _ = i;
            v.push(next().scope(internal, j).named(format!("internal {internal} index {j}")));
        }
    }
    // alpha and rcv.
    let one = Scalar::one();
    let big = Scalar::from_u128(u128::MAX);
    for (n, a) in [("0", Scalar::zero()), ("1", one), ("-1", -one), ("2^128-1", big)] {
        let mut s = next();
        s.alpha = a;
        v.push(s.named(format!("alpha {n}")));
        let mut s = next();
        s.rcv = a;
        v.push(s.named(format!("rcv {n}")));
    }
    {
        // rk is the identity.
        let s = next();
        let k = Key::new(seed, 300 + id_of(&s));
        let mut s = s;
        s.alpha = -k.r.ask;
        v.push(s.named("rk is the identity"));
        let mut s = next();
        s.rcv = Scalar::zero();
        s.v_new = s.old.v;
        v.push(s.named("cv_net is the identity"));
    }
    // rho, nk at the edges of the field and around the decompositions used by the circuit.
    let t_p = -(Base::from_u128(1 << 127) * Base::from_u128(1 << 127)); // p - 2^254
    let p254 = Base::from_u128(1 << 127) * Base::from_u128(1 << 127);
    let edges = [
        ("0", Base::zero()),
        ("1", Base::one()),
        ("-1", -Base::one()),
        ("2^254", p254),
        ("2^254-1", p254 - Base::one()),
        ("t_p", t_p),
        ("t_p - 1", t_p - Base::one()),
        ("2^254 + 2^125", p254 + Base::from_u128(1 << 125)),
        ("2^130", Base::from_u128(1 << 127) * Base::from_u128(8)),
        ("2^250 - 1", Base::from_u128(1 << 127) * Base::from_u128(1 << 123) - Base::one()),
    ];
    let ne = if thorough { edges.len() } else { 6 };
    for (n, e) in edges.iter().take(ne) {
        let mut s = next();
        s.old.rho = *e;
        v.push(s.named(format!("rho {n}")));
        let mut s = next();
        let k = Key::new(seed, 300 + id_of(&s));
        let f = refm::Fvk { ak: k.r.ak, nk: *e, rivk: k.r.ext.rivk };
        if let Some(key) = VKey::new(&f) {
            s.key = key;
            v.push(s.scope(false, 2).named(format!("nk {n}")));
        }
    }
    for (n, r) in [("0", Scalar::zero()), ("-1", -one)] {
        let mut s = next();
        let k = Key::new(seed, 300 + id_of(&s));
        let f = refm::Fvk { ak: k.r.ak, nk: k.r.nk, rivk: r };
        if let Some(key) = VKey::new(&f) {
            s.key = key;
            v.push(s.scope(false, 2).named(format!("rivk {n}")));
        }
    }
    // Every combination of y signs of the points that are encoded into commitments.
    for c in 0..16u8 {
        let mut s = next();
        let bit = |b: &[u8; 32]| b[31] >> 7;
        let gp = |a: &[u8; 43]| (bit(&refm::g_d(a[..11].try_into().unwrap()).to_bytes()), bit(a[11..].try_into().unwrap()));
        let j = (0u128..).find(|j| gp(&s.key.ext.address_at(&refm::idx(*j))) == (c & 1, c >> 1 & 1)).unwrap();
        let r = Key::new(seed, 400 + id_of(&s));
        let j2 = (0u128..).find(|j| gp(&r.addr(false, *j)) == (c >> 2 & 1, c >> 3 & 1)).unwrap();
        s.to = r.addr(false, j2);
        v.push(s.scope(false, j).named(format!("point signs {c:04b}")));
    }
    if thorough {
        for i in 0..64 {
            let mut s = next();
            s.old.v = 1u64 << i;
            s.v_new = if i % 3 == 0 { 0 } else { (1u64 << i) - 1 };
            s.path.pos = 1u32 << (i % 32);
            v.push(s.scope(i % 2 == 1, 1u128 << i).named(format!("bit {i} of value, position and index")));
        }
    }
    v
}
fn id_of(s: &Spec) -> u64 {
    s.name.trim_start_matches("action ").parse().unwrap()
}

/// Whether the tree under test compiles with its hooks; without them only honest witnesses and
/// perturbed public inputs are explored.
const HOOKS: bool = cfg!(orchard_mc);
fn columns(i: &orchard::circuit::Instance) -> Option<Vec<Base>> {
    #[cfg(orchard_mc)]
    return Some(i.mc_columns());
    #[cfg(not(orchard_mc))]
    return None;
}
fn mixed(a: &Circuit, b: &Circuit, m: u32) -> Option<Circuit> {
    #[cfg(orchard_mc)]
    return Some(a.mc_mix(b, m));
    #[cfg(not(orchard_mc))]
    return None;
}

pub fn c20(x: &mut Ctx) {
    if !HOOKS {
        x.assume("the hooks of this tree do not compile: mixtures and false statements were left out");
    }
    let seed = x.seed;
    let thorough = x.thorough();
    let specs = honest(seed, thorough);
    let nh = specs.len();
    let order = x.q(1, 2);
    let np = x.q(1, 3);
    x.bound(format!("{nh} honest actions at edges of value, position, index, scope, alpha, rcv, rho, nk, rivk, point signs, x flags; witnesses mixed field by field from three pairs of actions: every mask of up to {order} of 19 fields (1 for the last two pairs) and coherent groups of fields{}, against the best-fitting and the original public inputs; every public input perturbed", if thorough { " with one field more or less" } else { "" }));
    x.assume("the constraint system is evaluated by halo2's MockProver; that a proof exists exactly for satisfying assignments is halo2's soundness and completeness, sampled by C06 and C07 on real proofs");
    x.space("honest", &|c: &mut Chooser| {
        let s = &specs[c.pick("action", nh)];
        let a = s.act()?;
        let (es, eo) = *c.of("flags", &[(true, true), (true, false), (false, true), (false, false)]);
        let cols = a.w.fit(es, eo);
        let inst = a.instance(es, eo)?;
        if let Some(got) = columns(&inst) {
            eq!(got, cols.0.to_vec(), "{}: public inputs", a.name);
        }
        // The flags only matter together with a value; others are left to the mixtures.
        if !(es && eo) && !(a.w.v_old == 0 || a.w.v_new == 0) && !thorough {
            c.outcome("columns only");
            c.compared();
            return Ok(());
        }
        let bad = a.w.holds(&cols);
        let got = satisfied(&a.circuit, &cols, bad.is_empty())?;
        eq!(got, bad.is_empty(), "{}: flags {es} {eo}; reference objects to {bad:?}; satisfied", a.name);
        if es && eo {
            ensure!(bad.is_empty(), "{}: the reference rejects an honest action: {bad:?}", a.name);
        }
        // A witness with zero value may use any anchor.
        if a.w.v_old == 0 {
            let mut other = cols.clone();
            other.0[0] += Base::one();
            let bad = a.w.holds(&other);
            eq!(satisfied(&a.circuit, &other, bad.is_empty())?, bad.is_empty(), "{}: zero value, other anchor; satisfied", a.name);
        }
        c.outcome(format!("{got}"));
        c.state(format!("{} {es} {eo}", a.name));
        c.compared_n(2);
        Ok(())
    });
    x.space("constructor", &|c: &mut Chooser| {
        // from_action_context accepts exactly outputs whose rho is the nullifier.
        let s = &specs[c.pick("action", nh)];
        let nf = s.old.nullifier(&s.key.nk);
        let (n, rho) = *c.of("rho", &[("nf", nf), ("nf + 1", nf + Base::one()), ("-nf", -nf), ("old rho", s.old.rho), ("0", Base::zero())]);
        let info = SpendInfo::new(s.key.fvk.clone(), note(&s.old), s.path.real()).ok_or("not spendable")?;
        let rcv: ValueCommitTrapdoor = Option::from(ValueCommitTrapdoor::from_bytes(s.rcv.to_repr())).ok_or("rcv")?;
        let new = rnote(s.to, s.v_new, rho, s.rseed_new);
        let got = Circuit::from_action_context(info, note(&new), s.alpha, rcv).is_some();
        eq!(got, rho == nf, "{}: rho := {n}: accepted", s.name);
        c.state(format!("{} {n}", s.name));
        c.outcome(format!("{got}"));
        c.compared();
        Ok(())
    });
    let ak_ok = |k: &Key| -> bool { redpallas_ak(k) == k.r.ak };
    x.space("keys", &|c: &mut Chooser| {
        let k = Key::new(seed, 300 + c.pick("key", 40) as u64);
        ensure!(ak_ok(&k), "the circuit's spend validating key differs from the reference");
        c.state(hx(k.r.ak));
        c.compared();
        Ok(())
    });

    // Mixtures: everything different; only the note different; zero values.
    let pairs: Vec<(&str, Spec, Spec)> = {
        let a = Spec::new(seed, 0);
        let b = Spec::new(seed, 1).scope(true, 9);
        let mut a2 = Spec::new(seed, 2);
        let mut b2 = Spec::new(seed, 3);
        // Same key and position, other notes.
        b2.key = a2.key.clone();
        b2.path.pos = a2.path.pos;
        let b2 = b2.scope(false, 77);
        a2.old.v = 0;
        let mut a3 = Spec::new(seed, 4);
        let mut b3 = Spec::new(seed, 5);
        a3.old.v = 0;
        a3.v_new = 0;
        b3.old.v = 0;
        b3.v_new = 1;
        vec![("unrelated actions", a, b), ("actions of one key, zero and nonzero value", a2, b2), ("zero values", a3, b3)]
    };
    let acts: Result<Vec<(&str, Act, Act)>, String> = pairs.iter().map(|(n, a, b)| Ok((*n, a.act()?, b.act()?))).collect();
    let acts = match acts {
        Ok(a) => a,
        Err(e) => {
            x.space("fixtures", &|_: &mut Chooser| Err(e.clone()));
            return;
        }
    };
    // Coherent groups of fields, which the statement accepts or rejects as one.
    let groups: Vec<u32> = vec![
        0b11,                       // path and position
        0b1_1111_1100,              // the old note
        0b1_1111_1111,              // the old note and its path
        0b11100_0000_0000,          // the key
        0b11101_1111_1111,          // everything of the spend but alpha
        0b11111_1111_1111,          // the spend
        0b1_1111 << 13,             // the new note
        0b11_1111 << 13,            // the new note and rcv
        (1 << 19) - 1,              // all
        0,
        0b1000 | 0b11100_0000_0000, // key and pk_d
        0b1100,                     // the old address
        0b1100 | 0b11100_0000_0000, // the old address and the key
        0b1_1010_0000,
    ];
    let mut masks: Vec<(usize, u32)> = vec![];
    for p in 0..acts.len() {
        for m in 0u32..1 << 19 {
            let n = m.count_ones() as usize;
            let lim = if p == 0 { order } else { 1 };
            if n <= lim || groups.contains(&m) {
                masks.push((p, m));
            }
        }
        if thorough && p == 0 {
            // A coherent group with one field too many or too few.
            for g in &groups {
                for i in 0..19 {
                    masks.push((p, g ^ (1 << i)));
                }
            }
        }
    }
    masks.sort();
    masks.dedup();
    let label = |m: u32| (0..19).filter(|i| m >> i & 1 == 1).map(|i| BITS[i]).collect::<Vec<_>>().join(", ");
    x.space("mixtures", &|c: &mut Chooser| {
        let (p, m) = *c.of("mask", &masks);
        let (n, a, b) = &acts[p];
        let w = a.w.mix(&b.w, m);
        let Some(circuit) = mixed(&a.circuit, &b.circuit, m) else {
            return Ok(());
        };
        let what = format!("{n}, from the second: {}", label(m));
        let cols = w.fit(true, true);
        let bad = w.holds(&cols);
        let got = satisfied(&circuit, &cols, bad.is_empty())?;
        eq!(got, bad.is_empty(), "{what}; fitted public inputs; reference objects to {bad:?}; satisfied");
        c.compared();
        c.outcome(if bad.is_empty() { "satisfied".to_string() } else { bad.join(", ") });
        // The first action's public inputs with this witness.
        let orig = a.w.fit(true, true);
        if orig != cols {
            let bad = w.holds(&orig);
            let got = satisfied(&circuit, &orig, bad.is_empty())?;
            eq!(got, bad.is_empty(), "{what}; original public inputs; reference objects to {bad:?}; satisfied");
            c.compared();
        }
        c.state(format!("{p} {m}"));
        Ok(())
    });
    // Public inputs.
    let deltas = [Base::one(), -Base::one(), Base::from_u128(2)];
    x.space("public inputs", &|c: &mut Chooser| {
        let (n, a, b) = c.of("pair", &acts[..np]);
        let k = c.pick("column", 9);
        let how = c.pick("change", 7);
        let mut cols = a.w.fit(true, true);
        let o = b.w.fit(true, true);
        cols.0[k] = match how {
            0..=2 => cols.0[k] + deltas[how],
            3 => Base::zero(),
            4 => -cols.0[k],
            5 => o.0[k],
            // Exchanged with the next column.
            _ => {
                let t = cols.0[k];
                cols.0[k] = cols.0[(k + 1) % 9];
                cols.0[(k + 1) % 9] = t;
                cols.0[k]
            }
        };
        let bad = a.w.holds(&cols);
        let got = satisfied(&a.circuit, &cols, bad.is_empty())?;
        eq!(got, bad.is_empty(), "{n}: {} changed in way {how}; reference objects to {bad:?}; satisfied", COLS[k]);
        c.outcome(if bad.is_empty() { "satisfied".to_string() } else { bad.join(", ") });
        c.state(format!("{n} {k} {how}"));
        c.compared();
        Ok(())
    });
    // The columns of public instances that no honest witness has.
    let pts: Vec<[u8; 32]> = vec![
        [0; 32],
        refm::spend_auth_g().to_bytes(),
        (-refm::spend_auth_g()).to_bytes(),
        refm::value_r().to_bytes(),
        (refm::value_v() * Scalar::from_u128(77)).to_bytes(),
        acts[0].1.inst[0],
        acts[0].1.inst[1],
    ];
    let bases: Vec<[u8; 32]> = vec![[0; 32], Base::one().to_repr(), (-Base::one()).to_repr(), acts[0].1.inst[2], acts[0].1.inst[3]];
    x.space("instances", &|c: &mut Chooser| {
        let (cv, rk) = (*c.of("cv_net", &pts), *c.of("rk", &pts));
        let nf = *c.of("nf", &bases);
        let (cmx, an) = (*c.of("cmx", &bases), *c.of("anchor", &bases));
        let fl = c.pick("flags", 4);
        let i = instance(&[cv, rk, nf, cmx, an], fl & 1 == 1, fl & 2 == 2)?;
        let f = |b: &[u8; 32]| refm::base(b).unwrap();
        let (cvp, rkp) = (refm::xy(&refm::pt(&cv).unwrap()), refm::xy(&refm::pt(&rk).unwrap()));
        let want = vec![f(&an), cvp.0, cvp.1, f(&nf), rkp.0, rkp.1, f(&cmx), Base::from((fl & 1) as u64), Base::from((fl >> 1) as u64)];
        if let Some(got) = columns(&i) {
            eq!(got, want, "columns");
        }
        c.state(format!("{}{}{}{}{}{fl}", hx(cv), hx(rk), hx(nf), hx(cmx), hx(an)));
        c.compared();
        Ok(())
    });
    // Real proofs of edge cases that the builder never makes.
    both_keys();
    let names = ["rk is the identity", "cv_net is the identity", "values 18446744073709551615 0", "values 0 18446744073709551615", "rho 0", "nk 0", "position 0xffffffff"];
    let real: Vec<&Spec> = specs.iter().filter(|s| thorough || names[..].contains(&s.name.as_str())).collect();
    x.space("real proofs", &|c: &mut Chooser| {
        let i = c.pick("action", real.len());
        let a = real[i].act()?;
        let inst = a.instance(true, true)?;
        let p = Proof::create(pk(), &[a.circuit.clone()], &[inst.clone()], DetRng::new(seed, "c20proof", i as u64)).map_err(|e| format!("{}: proving failed: {e:?}", a.name))?;
        p.verify(vk(), &[inst]).map_err(|e| format!("{}: a proof of a true statement is rejected: {e:?}", a.name))?;
        // The same proof for other statements.
        for f in 0..3 {
            let (es, eo) = (f & 1 == 1, f & 2 == 2);
            ensure!(p.verify(vk(), &[a.instance(es, eo)?]).is_err(), "{}: proof accepted for flags {es} {eo}", a.name);
        }
        for k in 0..5 {
            let mut b = a.inst;
            b[k] = if k < 2 { (refm::pt(&b[k]).unwrap() + refm::value_r()).to_bytes() } else { (refm::base(&b[k]).unwrap() + Base::one()).to_repr() };
            ensure!(p.verify(vk(), &[instance(&b, true, true)?]).is_err(), "{}: proof accepted for another public input {k}", a.name);
        }
        c.state(&a.name);
        c.compared_n(9);
        Ok(())
    });
    // Proofs of false statements cannot be made to verify.
    let orig = [1u32 << 4, 1 << 8, 1 << 10, 1 << 11, 1 << 18, 0b10, 1 << 15, 1 << 9];
    let nf = x.q(4, orig.len());
    x.space("false statements", &|c: &mut Chooser| {
        let i = c.pick("mask", nf);
        let (n, a, b) = &acts[0];
        let Some(circuit) = mixed(&a.circuit, &b.circuit, orig[i]) else {
            return Ok(());
        };
        let inst = a.instance(true, true)?;
        let what = format!("{n}, from the second: {}", label(orig[i]));
        let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Proof::create(pk(), &[circuit], &[inst.clone()], DetRng::new(seed, "c20false", i as u64))));
        match made {
            Ok(Ok(p)) => {
                ensure!(p.verify(vk(), &[inst]).is_err(), "{what}: a proof of a false statement verifies");
                c.outcome("rejected by the verifier");
            }
            _ => c.outcome("no proof"),
        }
        c.state(&what);
        c.compared();
        Ok(())
    });
    if !x.is_replay() && !x.has_violation() {
        let oc = x.outcomes("mixtures");
        if !HOOKS {
            return;
        }
        let reached = |s: &str| oc.keys().any(|k| k.contains(s));
        let miss: Vec<_> = ["satisfied", "old note commitment integrity", "diversified address integrity"].iter().filter(|w| !reached(w)).collect();
        x.aggregate("mixtures", if miss.is_empty() { Ok(()) } else { Err(format!("never reached: {miss:?}")) });
        let oc = x.outcomes("public inputs");
        let reached = |s: &str| oc.keys().any(|k| k.contains(s));
        let miss: Vec<_> = ["path validity", "value commitment integrity", "nullifier integrity", "spend authority", "new note commitment integrity", "enable spends", "enable outputs"].iter().filter(|w| !reached(w)).collect();
        x.aggregate("public inputs", if miss.is_empty() { Ok(()) } else { Err(format!("never reached: {miss:?}")) });
    }
}

/// The validating key the implementation derives.
fn redpallas_ak(k: &Key) -> [u8; 32] {
    let ak = SpendValidatingKey::from(&k.ask);
    let _ = &ak;
    k.fvk.to_bytes()[..32].try_into().unwrap()
}
