//! C06 completeness, C07 rejection of alterations, C08 batches: real proofs.

use super::full::*;
use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::{
    builder::*,
    bundle::{Authorized, BatchValidator},
    keys::SpendAuthorizingKey,
    primitives::redpallas::{Signature, SpendAuth},
    Bundle,
};
use std::collections::BTreeMap;
use std::sync::Mutex;

pub type Done = Bundle<Authorized, i64>;

/// Everything a validator looks at.
fn validates(b: &Done, sighash: &[u8; 32], what: &str) -> Result<(), String> {
    b.verify_proof(vk()).map_err(|e| format!("{what}: the proof is rejected: {e:?}"))?;
    for (i, a) in b.actions().iter().enumerate() {
        a.rk().verify(sighash, a.authorization()).map_err(|e| format!("{what}: spend signature {i} is rejected: {e:?}"))?;
    }
    b.binding_validating_key()
        .verify(sighash, b.authorization().binding_signature())
        .map_err(|e| format!("{what}: the binding signature is rejected: {e:?}"))?;
    let r = RBundle::of(b);
    ensure!(r.sigs_valid(sighash), "{what}: the reference rejects a signature");
    ensure!(batch(&[(b, *sighash)]), "{what}: batch validation rejects the bundle");
    // What a verifier reconstructs from the encoding validates too.
    let again = r.real().ok_or(format!("{what}: the bundle cannot be parsed back"))?;
    again.verify_proof(vk()).map_err(|e| format!("{what}: the proof of the parsed bundle is rejected: {e:?}"))?;
    Ok(())
}
fn batch(l: &[(&Done, [u8; 32])]) -> bool {
    let mut v = BatchValidator::new();
    for (b, s) in l {
        v.add_bundle(*b, *s);
    }
    v.validate(vk(), DetRng::new(l.len() as u64, "batch", 0))
}
fn asks(keys: &[&Key]) -> Vec<SpendAuthorizingKey> {
    keys.iter().map(|k| k.ask.clone()).collect()
}

/// Values whose net is representable.
const VALUES: [(u64, u64); 14] = [
    (0, 0),
    (0, 1),
    (1, 0),
    (1, 1),
    (0, i64::MAX as u64),
    (i64::MAX as u64, 0),
    (u64::MAX, u64::MAX),
    (u64::MAX, 1 << 63),
    (1 << 63, u64::MAX),
    (1 << 63, 1),
    (1, 1 << 63),
    (2_100_000_000_000_000, 2_100_000_000_000_001),
    (u64::MAX - 1, u64::MAX),
    (0xffff_ffff, 0x1_0000_0000),
];
const POSITIONS: [u32; 10] =
    [0, 1, 1 << 31, u32::MAX, 0xaaaa_aaaa, 0x5555_5555, 2, u32::MAX - 1, 0x7fff_ffff, 0x0001_0000];

fn single(seed: u64, key: &Key, internal: bool, j: u128, v: u64, id: u64, pos: u32) -> (refm::Base, Owned) {
    let n = rnote(key.addr(internal, j), v, rbase(seed, "c06rho", id), bytes32(seed, "c06rs", id));
    let mut path = [refm::Base::zero(); 32];
    for (l, h) in path.iter_mut().enumerate() {
        *h = rbase(seed, "c06sib", id * 64 + l as u64);
    }
    let path = RPath { pos, path };
    let root = path.root(&n.cmx());
    (root, Owned { key: key.clone(), internal, n, path })
}

enum St {
    U(UnauthorizedBundle<i64>),
    P(Unsigned),
    UP(Bundle<InProgress<Unproven, PartiallyAuthorized>, i64>),
    PP(Bundle<InProgress<orchard::Proof, PartiallyAuthorized>, i64>),
}
impl St {
    fn prove(self, label: u64) -> Result<St, String> {
        let r = DetRng::new(label, "prove", 0);
        Ok(match self {
            St::U(b) => St::P(b.create_proof(pk(), r).map_err(|e| format!("{e:?}"))?),
            St::UP(b) => St::PP(b.create_proof(pk(), r).map_err(|e| format!("{e:?}"))?),
            s => s,
        })
    }
    fn prepare(self, label: u64, m: [u8; 32]) -> St {
        let r = DetRng::new(label, "prepare", 0);
        match self {
            St::U(b) => St::UP(b.prepare(r, m)),
            St::P(b) => St::PP(b.prepare(r, m)),
            s => s,
        }
    }
    fn sign(self, label: u64, k: &Key) -> St {
        let r = DetRng::new(label, "sign", 0);
        match self {
            St::UP(b) => St::UP(b.sign(r, &k.ask)),
            St::PP(b) => St::PP(b.sign(r, &k.ask)),
            s => s,
        }
    }
    fn append(self, s: &Signature<SpendAuth>) -> Result<St, String> {
        let l = [s.clone()];
        Ok(match self {
            St::UP(b) => St::UP(b.append_signatures(&l).map_err(|e| format!("append: {e:?}"))?),
            St::PP(b) => St::PP(b.append_signatures(&l).map_err(|e| format!("append: {e:?}"))?),
            s => s,
        })
    }
}

/// The permutations of 0..n.
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

pub fn c06(x: &mut Ctx) {
    let seed = x.seed;
    let (ms, mo) = (x.q(2, 4), x.q(2, 4));
    let (nv, np, nj) = (x.q(8, VALUES.len()), x.q(6, POSITIONS.len()), x.q(3, 6));
    both_keys();
    x.bound(format!("real proofs of: every bundle type x 0..={ms} spends x 0..={mo} outputs it admits (mixed scopes, keys, values, memos); {nv} pairs of spent and created value with edges at 0, 2^63 and 2^64; {np} tree positions with both scopes; {nj} diversifier indices; every order of proving among prepare, two signing operations and their two orders, by key or appended. One batch of all of them."));
    x.assume("C23 justifies the reference's signature verification; the key pair is built once per process");
    let pool: Mutex<BTreeMap<String, (Done, [u8; 32])>> = Mutex::new(BTreeMap::new());
    let keep = |k: &str, b: Done, m: [u8; 32]| {
        pool.lock().unwrap().insert(k.to_string(), (b, m));
    };
    let msgs = [[0u8; 32], [0xff; 32], bytes32(seed, "c06msg", 0)];

    let mut shapes = vec![];
    for bt in BT::all() {
        for s in 0..=ms {
            for o in 0..=mo {
                if (s > 0 && !bt.spends()) || (o > 0 && !bt.outputs()) || bt.actions(s, o) == 0 {
                    continue;
                }
                // A required bundle differs from an optional one in the empty request only.
                if matches!(bt, BT::Tx { req: true, .. }) && s + o > 0 && !x.thorough() {
                    continue;
                }
                shapes.push((bt, s, o));
            }
        }
    }
    x.space("shapes", &|c: &mut Chooser| {
        let (i, (bt, s, o)) = {
            let i = c.pick("shape", shapes.len());
            (i as u64, shapes[i])
        };
        let keys = [Key::new(seed, 0), Key::new(seed, 1)];
        let notes = (0..s)
            .map(|j| {
                let k = keys[j / 2 % 2].clone();
                let internal = j % 2 == 1;
                let id = i * 16 + j as u64;
                let n = rnote(k.addr(internal, 3 * j as u128), 1000 * (j as u64 % 3), rbase(seed, "shr", id), bytes32(seed, "shs", id));
                (k, internal, n)
            })
            .collect();
        let (root, spends) = plant(notes);
        let outs = (0..o)
            .map(|j| (keys[j % 2].addr(j % 3 == 1, j as u128), [7, 0, 1 << 40, 1][j % 4], memo(j), if j % 2 == 0 { Some(keys[0].r.ext.ovk) } else { None }))
            .collect();
        let req = Req { bt, root, spends, outs };
        let what = format!("{bt:?}, {s} spends, {o} outputs");
        let (un, _) = req.prove(DetRng::new(seed, "shape", i), i).map_err(|e| format!("{what}: {e}"))?;
        eq!(un.actions().len(), bt.actions(s, o), "{what}: number of actions");
        let m = msgs[i as usize % 3];
        let b = un.apply_signatures(DetRng::new(seed, "shapesig", i), m, &asks(&[&keys[0], &keys[1]])).map_err(|e| format!("{what}: {e:?}"))?;
        eq!(b.flags().to_byte(), bt.flag_byte(), "{what}: flags");
        validates(&b, &m, &what)?;
        keep(&what, b, m);
        c.compared_n(5);
        c.state(&what);
        Ok(())
    });
    // Larger bundles: every spend of another note, in both scopes, every second output with an outgoing key.
    let larger: Vec<(usize, usize)> = x.q(vec![(3, 0), (0, 4), (5, 5), (9, 2), (1, 17)], vec![(5, 5), (6, 0), (0, 7), (8, 8), (9, 2), (1, 17), (16, 16), (24, 0), (33, 33), (0, 40), (64, 65)]);
    x.bound(format!("{} larger bundles of (spends, outputs) {larger:?}", larger.len()));
    x.space("larger", &|c: &mut Chooser| {
        let i = c.pick("shape", larger.len());
        let (s, o) = larger[i];
        let what = format!("{s} spends, {o} outputs");
        let b = make_std(seed, "larger", 1000, s, o, 300 + i as u64).map_err(|e| format!("{what}: {e}"))?;
        let real = b.r.real().ok_or("the bundle does not parse")?;
        eq!(real.actions().len(), s.max(o).max(2), "{what}: number of actions");
        validates(&real, &b.msg, &what)?;
        keep(&what, real, b.msg);
        c.compared_n(5);
        c.state(&what);
        Ok(())
    });
    let js: [u128; 6] = [0, 1, (1 << 88) - 1, 1 << 87, 255, 1 << 40];
    // (values, position, internal, diversifier index, seed variant)
    let mut honest: Vec<(usize, u32, bool, u128)> = vec![];
    for i in 0..nv {
        honest.push((i, 5, i % 2 == 1, 2));
    }
    for (i, p) in POSITIONS[..np].iter().enumerate() {
        for internal in [false, true] {
            if x.thorough() || internal == (i % 2 == 0) {
                honest.push((12, *p, internal, 4));
            }
        }
    }
    for (i, j) in js[..nj].iter().enumerate() {
        for internal in [false, true] {
            if x.thorough() || internal == (i % 2 == 1) {
                honest.push((2, 9, internal, *j));
            }
        }
    }
    if x.thorough() {
        for v in [4, 5, 6, 8] {
            for p in [0, u32::MAX, 0xaaaa_aaaa] {
                for internal in [false, true] {
                    honest.push((v, p, internal, 1 << 60));
                }
            }
        }
    }
    x.space("values", &|c: &mut Chooser| {
        let i = c.pick("case", honest.len());
        let (vi, pos, internal, j) = honest[i];
        let (vin, vout) = VALUES[vi];
        let k = Key::new(seed, 2 + i as u64);
        let (root, w) = single(seed, &k, internal, j, vin, i as u64, pos);
        let req = Req { bt: BT::Tx { s: true, o: true, req: false }, root, spends: vec![w], outs: vec![(k.addr(!internal, j), vout, memo(i % 7), Some(k.r.int.ovk))] };
        let what = format!("value {vin} to {vout}, position {pos:#x}, internal {internal}, index {j}");
        let (un, _) = req.prove(DetRng::new(seed, "val", i as u64), i as u64).map_err(|e| format!("{what}: {e}"))?;
        let m = msgs[i % 3];
        let b = un.apply_signatures(DetRng::new(seed, "valsig", i as u64), m, &asks(&[&k])).map_err(|e| format!("{what}: {e:?}"))?;
        eq!(*b.value_balance() as i128, vin as i128 - vout as i128, "{what}: balance");
        validates(&b, &m, &what)?;
        keep(&what, b, m);
        c.compared_n(5);
        c.state(&what);
        Ok(())
    });
    // Interleavings of proving and signing on one request: two spends of two keys.
    let two = {
        let keys = [Key::new(seed, 50), Key::new(seed, 51)];
        let (root, spends) = plant(
            (0..2)
                .map(|j| {
                    let n = rnote(keys[j].addr(j == 1, 0), 40, rbase(seed, "two", j as u64), bytes32(seed, "two", j as u64));
                    (keys[j].clone(), j == 1, n)
                })
                .collect(),
        );
        let outs = vec![(keys[0].addr(false, 1), 50, None, None)];
        (Req { bt: BT::Tx { s: true, o: true, req: false }, root, spends, outs }, keys)
    };
    let orders = perms(2);
    let all = x.thorough();
    x.space("interleavings", &|c: &mut Chooser| {
        let m = bytes32(seed, "c06il", 0);
        let (b, meta) = two.0.build(DetRng::new(seed, "il", 0))?.ok_or("no bundle")?;
        // Signatures of another party who holds the same unproven bundle.
        let ext: Vec<Signature<SpendAuth>> = {
            let mut e = b.clone().prepare(DetRng::new(seed, "ilx", 0), m);
            for k in &two.1 {
                e = e.sign(DetRng::new(seed, "ilx", 1), &k.ask);
            }
            (0..2)
                .map(|i| match e.actions()[meta.spend_action_index(i).unwrap()].authorization() {
                    MaybeSigned::Signature(s) => Ok(s.clone()),
                    _ => Err("external signing failed".to_string()),
                })
                .collect::<Result<_, _>>()?
        };
        let at = c.pick("proof after this many steps", 4);
        let order = c.of("order", &orders).clone();
        let mixed = if all { c.flag("one of each") } else { false };
        let h = c.pick("appended", 2);
        let how = [h, if mixed { 1 - h } else { h }];
        let mut st = St::U(b);
        for step in 0..4 {
            if step == at {
                st = st.prove(7)?;
            }
            st = match step {
                0 => st.prepare(8, m),
                1 | 2 => {
                    let k = order[step - 1];
                    if how[step - 1] == 1 {
                        st.append(&ext[k])?
                    } else {
                        st.sign(9 + step as u64, &two.1[k])
                    }
                }
                _ => st,
            };
        }
        let what = format!("proof after {at} steps, signing order {order:?}, appended {how:?}");
        let St::PP(b) = st else { return Err("the workflow did not reach a proven and prepared bundle".into()) };
        let b = b.finalize().map_err(|e| format!("{what}: {e:?}"))?;
        validates(&b, &m, &what)?;
        keep(&what, b, m);
        c.compared_n(5);
        c.state(&what);
        Ok(())
    });
    let pool = pool.into_inner().unwrap();
    let l: Vec<(&Done, [u8; 32])> = pool.values().map(|(b, m)| (b, *m)).collect();
    if !x.is_replay() && !x.has_violation() {
        let n = l.len();
        let sub = |k: usize| l.iter().skip(k).step_by(3).cloned().collect::<Vec<_>>();
        let r = if !batch(&l) {
            Err(format!("a batch of {n} valid bundles is rejected"))
        } else {
            (0..3).try_for_each(|k| if batch(&sub(k)) { Ok(()) } else { Err(format!("a batch of valid bundles {k} mod 3 is rejected")) })
        };
        x.aggregate("batch of all", r);
    }
}

// ------------------------------------------------------------------ C07

struct Base7 {
    name: String,
    r: RBundle,
    msg: [u8; 32],
    /// Randomized signing keys are unknown to us; these are the keys of the spends.
    cols: Vec<Vec<[u8; 32]>>,
}

/// The public inputs of each action's proof, as the specification defines them.
fn columns(r: &RBundle) -> Vec<Vec<[u8; 32]>> {
    r.actions
        .iter()
        .map(|a| {
            let mut v = vec![r.anchor, a.cv, a.nf, a.rk, a.cmx];
            v.push([r.flags & 1; 32]);
            v.push([r.flags >> 1 & 1; 32]);
            v
        })
        .collect()
}

fn make(seed: u64, name: &str, req: &Req, keys: &[&Key], label: u64) -> Result<Base7, String> {
    let (un, _) = req.prove(DetRng::new(seed, name, label), label)?;
    let msg = bytes32(seed, "c07msg", label);
    let b = un.apply_signatures(DetRng::new(seed, "c07sig", label), msg, &asks(keys)).map_err(|e| format!("{e:?}"))?;
    let r = RBundle::of(&b);
    Ok(Base7 { name: name.into(), cols: columns(&r), r, msg })
}
fn make_std(seed: u64, name: &str, v: u64, spends: usize, outs: usize, label: u64) -> Result<Base7, String> {
    let k = Key::new(seed, 70 + label);
    let (root, owned) = plant(
        (0..spends)
            .map(|j| {
                let id = label * 16 + j as u64;
                let n = rnote(k.addr(j % 2 == 1, j as u128), v, rbase(seed, "c07", id), bytes32(seed, "c07", id));
                (k.clone(), j % 2 == 1, n)
            })
            .collect(),
    );
    let bt = if spends == 0 && outs == 1 { BT::Coinbase } else { BT::Tx { s: true, o: true, req: false } };
    let req = Req { bt, root, spends: owned, outs: (0..outs).map(|j| (k.addr(false, j as u128), v / 2 + j as u64, None, None)).collect() };
    make(seed, name, &req, &[&k], label)
}

/// The bundle as one would receive it, or None when it does not parse.
fn verdicts(all: &[Base7], b: &Base7, r: &RBundle, msg: &[u8; 32], with_batch: bool, c: &mut Chooser, what: &str) -> Result<&'static str, String> {
    let Some(real) = r.real() else {
        c.outcome("does not parse");
        return Ok("does not parse");
    };
    let what = &format!("{}: {what}", b.name);
    let proof_ok = real.verify_proof(vk()).is_ok();
    // The reference knows which statements the proofs were made for.
    let same_proof = all.iter().any(|o| r.proof == o.r.proof && columns(r) == o.cols);
    eq!(proof_ok, same_proof, "{what}: proof verification");
    let mut sigs = vec![];
    for (i, a) in real.actions().iter().enumerate() {
        let got = a.rk().verify(msg, a.authorization()).is_ok();
        eq!(got, refm::redpallas_verify(&refm::spend_auth_g(), &r.actions[i].rk, msg, &r.sigs[i]), "{what}: spend signature {i}");
        sigs.push(got);
    }
    eq!(<[u8; 32]>::from(&real.binding_validating_key()), r.bvk(), "{what}: binding validating key");
    let got = real.binding_validating_key().verify(msg, real.authorization().binding_signature()).is_ok();
    eq!(got, refm::redpallas_verify(&refm::value_r(), &r.bvk(), msg, &r.binding), "{what}: binding signature");
    sigs.push(got);
    let sigs_ok = sigs.iter().all(|s| *s);
    c.compared_n(2 + sigs.len() as u64);
    if with_batch {
        eq!(batch(&[(&real, *msg)]), proof_ok && sigs_ok, "{what}: batch validation");
        c.compared();
    }
    let o = match (proof_ok, sigs_ok) {
        (true, true) => "accepted",
        (true, false) => "signature rejected",
        (false, true) => "proof rejected",
        (false, false) => "both rejected",
    };
    c.outcome(o);
    Ok(o)
}
fn rejected(o: &str, what: &str) -> Result<(), String> {
    ensure!(o != "accepted", "an altered bundle is accepted: {what}");
    Ok(())
}

fn add_pt(p: &[u8; 32], q: &refm::Point) -> [u8; 32] {
    (refm::pt(p).unwrap() + q).to_bytes()
}
type Alt = (String, Box<dyn Fn(&mut RBundle, &mut [u8; 32]) + Sync + Send>);

fn field(r: &mut RBundle, i: usize, f: usize) -> &mut [u8; 32] {
    let a = &mut r.actions[i];
    match f {
        0 => &mut a.nf,
        1 => &mut a.rk,
        2 => &mut a.cmx,
        _ => &mut a.cv,
    }
}
const FIELDS: [&str; 4] = ["nullifier", "rk", "cmx", "cv_net"];

/// Alterations of one component each; every one changes something.
fn alterations(b: &Base7, others: &[&Base7], every_bit: bool) -> Vec<Alt> {
    let mut v: Vec<Alt> = vec![];
    let n = b.r.actions.len();
    let masks: Vec<u8> = if every_bit { (0..8).map(|i| 1 << i).collect() } else { vec![1, 0x80] };
    macro_rules! alt {
        ($n:expr, $f:expr) => {
            v.push(($n.to_string(), Box::new($f)))
        };
    }
    // Points: random bytes rarely parse; shift by known points.
    let pts: Vec<refm::Point> = vec![refm::spend_auth_g(), -refm::spend_auth_g(), refm::value_r(), refm::value_v(), -refm::value_v()];
    let one = Scalar::one();
    for i in 0..n {
        for f in 0..4 {
            for k in 0..32 {
                for m in &masks {
                    let m = *m;
                    alt!(format!("{} {i} byte {k} ^ {m:#x}", FIELDS[f]), move |r: &mut RBundle, _: &mut [u8; 32]| field(r, i, f)[k] ^= m);
                }
            }
            let edge: Vec<(&str, [u8; 32])> = if f == 0 || f == 2 {
                vec![("0", [0; 32]), ("1", refm::Base::one().to_repr()), ("-1", (-refm::Base::one()).to_repr()), ("negated", {
                    let mut r = b.r.clone();
                    (-refm::base(field(&mut r, i, f)).unwrap()).to_repr()
                })]
            } else {
                vec![
                    ("the identity", [0; 32]),
                    ("the spend base", refm::spend_auth_g().to_bytes()),
                    ("the randomness base", refm::value_r().to_bytes()),
                    ("negated", {
                        let mut r = b.r.clone();
                        (-refm::pt(field(&mut r, i, f)).unwrap()).to_bytes()
                    }),
                ]
            };
            for (en, e) in edge {
                alt!(format!("{} {i} := {en}", FIELDS[f]), move |r: &mut RBundle, _: &mut [u8; 32]| *field(r, i, f) = e);
            }
            if f == 1 || f == 3 {
                for (pi, p) in pts.iter().enumerate() {
                    let p = *p;
                    alt!(format!("{} {i} + point {pi}", FIELDS[f]), move |r: &mut RBundle, _: &mut [u8; 32]| {
                        let x = field(r, i, f);
                        *x = add_pt(x, &p)
                    });
                }
            }
            // Exchanges within the bundle.
            for i2 in 0..n {
                for f2 in 0..4 {
                    if (i2, f2) <= (i, f) {
                        continue;
                    }
                    alt!(format!("{} {i} exchanged with {} {i2}", FIELDS[f], FIELDS[f2]), move |r: &mut RBundle, _: &mut [u8; 32]| {
                        let (a, b) = (*field(r, i, f), *field(r, i2, f2));
                        *field(r, i, f) = b;
                        *field(r, i2, f2) = a;
                    });
                    if f == f2 {
                        alt!(format!("{} {i} := {} {i2}", FIELDS[f], FIELDS[f2]), move |r: &mut RBundle, _: &mut [u8; 32]| *field(r, i, f) = *field(r, i2, f2));
                        alt!(format!("{} {i2} := {} {i}", FIELDS[f], FIELDS[f2]), move |r: &mut RBundle, _: &mut [u8; 32]| *field(r, i2, f2) = *field(r, i, f));
                    }
                }
            }
            for o in others {
                let w = *field(&mut o.r.clone(), 0, f);
                alt!(format!("{} {i} of {}", FIELDS[f], o.name), move |r: &mut RBundle, _: &mut [u8; 32]| *field(r, i, f) = w);
            }
        }
        // rk under a key we know, with a valid signature by it (and by the zero key).
        for (kn, k) in [("zero", Scalar::zero()), ("one", one), ("minus one", -one), ("known", refm::h_star(&[b"c07"]))] {
            alt!(format!("rk {i} := the {kn} key, signed with it"), move |r: &mut RBundle, m: &mut [u8; 32]| {
                r.actions[i].rk = (refm::spend_auth_g() * k).to_bytes();
                r.sigs[i] = refm::redpallas_sign(&refm::spend_auth_g(), &k, b"t", &m[..]);
            });
        }
        for k in 0..64 {
            for m in &masks {
                let m = *m;
                alt!(format!("spend signature {i} byte {k} ^ {m:#x}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.sigs[i][k] ^= m);
            }
        }
        for (sn, s) in [("zero", [0u8; 64]), ("ones", [0xff; 64]), ("the binding signature", b.r.binding)] {
            alt!(format!("spend signature {i} := {sn}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.sigs[i] = s);
        }
        alt!(format!("spend signature {i}: s + group order if it fits"), move |r: &mut RBundle, _: &mut [u8; 32]| {
            let o = add_order(&r.sigs[i][32..].try_into().unwrap());
            r.sigs[i][32..].copy_from_slice(&o);
        });
        for (sn, flip_r, flip_s) in [("R", true, false), ("s", false, true), ("R and s", true, true)] {
            alt!(format!("spend signature {i}: {sn} negated"), move |r: &mut RBundle, _: &mut [u8; 32]| negate(&mut r.sigs[i], flip_r, flip_s));
        }
        for j in 0..n {
            if i != j {
                alt!(format!("spend signature {i} := that of {j}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.sigs[i] = r.sigs[j]);
            }
            if i < j {
                alt!(format!("spend signatures {i} and {j} exchanged"), move |r: &mut RBundle, _: &mut [u8; 32]| r.sigs.swap(i, j));
                alt!(format!("actions {i} and {j} exchanged"), move |r: &mut RBundle, _: &mut [u8; 32]| {
                    r.sigs.swap(i, j);
                    r.actions.swap(i, j);
                });
                alt!(format!("effects of actions {i} and {j} exchanged, signatures not"), move |r: &mut RBundle, _: &mut [u8; 32]| r.actions.swap(i, j));
                // Value moved between the commitments: the binding key stays the same.
                for (pi, p) in pts.iter().enumerate() {
                    let p = *p;
                    alt!(format!("point {pi} moved from cv_net {i} to cv_net {j}"), move |r: &mut RBundle, _: &mut [u8; 32]| {
                        r.actions[i].cv = add_pt(&r.actions[i].cv, &-p);
                        r.actions[j].cv = add_pt(&r.actions[j].cv, &p);
                    });
                }
            }
        }
        for d in [1i64, -1, 1 << 40] {
            alt!(format!("balance and cv_net {i} moved together by {d}"), move |r: &mut RBundle, _: &mut [u8; 32]| {
                r.actions[i].cv = add_pt(&r.actions[i].cv, &refm::value_commit(d as i128, &Scalar::zero()));
                r.balance = r.balance.wrapping_add(d);
            });
        }
        alt!(format!("action {i} repeated"), move |r: &mut RBundle, _: &mut [u8; 32]| {
            let (a, s) = (r.actions[i].clone(), r.sigs[i]);
            r.actions.insert(i, a);
            r.sigs.insert(i, s);
        });
        if n > 1 {
            alt!(format!("action {i} removed"), move |r: &mut RBundle, _: &mut [u8; 32]| {
                r.actions.remove(i);
                r.sigs.remove(i);
            });
            alt!(format!("only action {i} kept, binding signed for its remaining key impossible"), move |r: &mut RBundle, _: &mut [u8; 32]| {
                r.actions = vec![r.actions[i].clone()];
                r.sigs = vec![r.sigs[i]];
            });
        }
        for o in others {
            let (a, s) = (o.r.actions[0].clone(), o.r.sigs[0]);
            let (a2, s2) = (a.clone(), s);
            alt!(format!("action {i} := that of {}", o.name), move |r: &mut RBundle, _: &mut [u8; 32]| {
                r.actions[i] = a.clone();
                r.sigs[i] = s;
            });
            alt!(format!("action of {} inserted at {i}", o.name), move |r: &mut RBundle, _: &mut [u8; 32]| {
                r.actions.insert(i, a2.clone());
                r.sigs.insert(i, s2);
            });
        }
    }
    for f in 0..4u8 {
        if f != b.r.flags {
            alt!(format!("flags := {f}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.flags = f);
        }
    }
    let bal = b.r.balance;
    for w in [0, 1, -1, bal.wrapping_add(1), bal.wrapping_sub(1), bal.wrapping_neg(), i64::MAX, i64::MIN, bal ^ (1 << 32), bal ^ i64::MIN] {
        if w != bal {
            alt!(format!("balance {bal} := {w}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.balance = w);
        }
    }
    for k in 0..32 {
        for m in &masks {
            let m = *m;
            alt!(format!("anchor byte {k} ^ {m:#x}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.anchor[k] ^= m);
            alt!(format!("message byte {k} ^ {m:#x}"), move |_: &mut RBundle, h: &mut [u8; 32]| h[k] ^= m);
        }
    }
    for (an, a) in [("0", [0u8; 32]), ("2", refm::empty_leaf().to_repr()), ("the empty root", refm::empty_roots()[32].to_repr())] {
        if a != b.r.anchor {
            alt!(format!("anchor := {an}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.anchor = a);
        }
    }
    for k in 0..64 {
        for m in &masks {
            let m = *m;
            alt!(format!("binding signature byte {k} ^ {m:#x}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.binding[k] ^= m);
        }
    }
    for (sn, s) in [("zero", [0u8; 64]), ("ones", [0xff; 64]), ("a spend signature", b.r.sigs[0])] {
        alt!(format!("binding signature := {sn}"), move |r: &mut RBundle, _: &mut [u8; 32]| r.binding = s);
    }
    alt!("binding signature: s + group order if it fits", move |r: &mut RBundle, _: &mut [u8; 32]| {
        let o = add_order(&r.binding[32..].try_into().unwrap());
        r.binding[32..].copy_from_slice(&o);
    });
    for (sn, flip_r, flip_s) in [("R", true, false), ("s", false, true), ("R and s", true, true)] {
        alt!(format!("binding signature: {sn} negated"), move |r: &mut RBundle, _: &mut [u8; 32]| negate(&mut r.binding, flip_r, flip_s));
    }
    // All signatures wrong in compensating ways.
    for i in 0..n {
        for j in 0..n {
            if i != j {
                alt!(format!("s of spend signature {i} + 1, of {j} - 1"), move |r: &mut RBundle, _: &mut [u8; 32]| {
                    shift(&mut r.sigs[i], one);
                    shift(&mut r.sigs[j], -one);
                });
            }
        }
    }
    for o in others {
        let (p, bi, an, ss, ac, fl) = (o.r.proof.clone(), o.r.binding, o.r.anchor, o.r.sigs.clone(), o.r.actions.clone(), o.r.flags);
        alt!(format!("proof of {}", o.name), move |r: &mut RBundle, _: &mut [u8; 32]| r.proof = p.clone());
        alt!(format!("binding signature of {}", o.name), move |r: &mut RBundle, _: &mut [u8; 32]| r.binding = bi);
        if an != b.r.anchor {
            alt!(format!("anchor of {}", o.name), move |r: &mut RBundle, _: &mut [u8; 32]| r.anchor = an);
        }
        let (p, ac2, ss2) = (o.r.proof.clone(), ac.clone(), ss.clone());
        alt!(format!("actions and signatures of {}", o.name), move |r: &mut RBundle, _: &mut [u8; 32]| {
            r.actions = ac2.clone();
            r.sigs = ss2.clone();
        });
        alt!(format!("everything but the binding signature of {}", o.name), move |r: &mut RBundle, _: &mut [u8; 32]| {
            r.actions = ac.clone();
            r.sigs = ss.clone();
            r.proof = p.clone();
            r.anchor = an;
            r.flags = fl;
        });
    }
    alt!("empty proof", |r: &mut RBundle, _: &mut [u8; 32]| r.proof.clear());
    alt!("proof of zeros", |r: &mut RBundle, _: &mut [u8; 32]| r.proof.fill(0));
    alt!("proof of ones", |r: &mut RBundle, _: &mut [u8; 32]| r.proof.fill(0xff));
    v
}
fn negate(s: &mut [u8; 64], r: bool, t: bool) {
    if r {
        s[31] ^= 0x80;
    }
    if t {
        let x = refm::scalar(&s[32..].try_into().unwrap()).unwrap();
        s[32..].copy_from_slice(&(-x).to_repr());
    }
}
fn shift(s: &mut [u8; 64], d: Scalar) {
    if let Some(x) = refm::scalar(&s[32..].try_into().unwrap()) {
        s[32..].copy_from_slice(&(x + d).to_repr());
    }
}
/// Adds the group order to an encoded scalar (a non-canonical encoding of the same scalar).
fn add_order(s: &[u8; 32]) -> [u8; 32] {
    // order - 1, plus 1
    let m = (-Scalar::one()).to_repr();
    let mut o = [0u8; 32];
    let mut carry = 1u16;
    for i in 0..32 {
        let t = s[i] as u16 + m[i] as u16 + carry;
        o[i] = t as u8;
        carry = t >> 8;
    }
    o
}

pub fn c07(x: &mut Ctx) {
    let seed = x.seed;
    both_keys();
    let spec: Vec<(&str, u64, usize, usize)> = if x.thorough() {
        vec![("two spends", 6, 2, 1), ("coinbase", 9, 0, 1), ("one spend", 0, 1, 1), ("three spends", 3, 3, 2)]
    } else {
        vec![("two spends", 6, 2, 1), ("coinbase", 9, 0, 1)]
    };
    let made: Result<Vec<Base7>, String> =
        spec.iter().enumerate().map(|(i, (n, v, s, o))| make_std(seed, n, *v, *s, *o, i as u64)).collect();
    let bases = match made {
        Ok(b) => b,
        Err(e) => {
            x.space("fixtures", &|_: &mut Chooser| Err(format!("an honest bundle could not be authorized: {e}")));
            return;
        }
    };
    let every_bit = x.thorough();
    let alts: Vec<Vec<Alt>> = bases
        .iter()
        .map(|b| {
            let others: Vec<&Base7> = bases.iter().filter(|o| o.name != b.name).collect();
            alterations(b, &others, every_bit)
        })
        .collect();
    x.bound(format!(
        "{} authorized bundles; single alterations {:?} (every {} of every validated component, edge values, exchanges, repeated, removed and inserted actions, foreign parts, compensating pairs, re-signing under known and zero keys); one byte in {} of every proof; every {} proof length; every {}th pair of alterations",
        bases.len(),
        alts.iter().map(|a| a.len()).collect::<Vec<_>>(),
        if every_bit { "bit" } else { "byte (lowest and highest bit)" },
        x.q(8, 2),
        x.q("8th", "single"),
        x.q(13, 12)
    ));
    x.assume("a proof is expected to verify only with the bytes and public inputs it was made with; the reference verifier (C23) decides every signature");
    x.space("unaltered", &|c: &mut Chooser| {
        let b = c.of("bundle", &bases);
        let o = verdicts(&bases, b, &b.r, &b.msg, true, c, "unaltered")?;
        eq!(o, "accepted", "{}: verdict", b.name);
        c.state(&b.name);
        Ok(())
    });
    x.space("single", &|c: &mut Chooser| {
        let i = c.pick("bundle", bases.len());
        let (name, f) = c.of("alteration", &alts[i]);
        let (mut r, mut m) = (bases[i].r.clone(), bases[i].msg);
        f(&mut r, &mut m);
        let o = verdicts(&bases, &bases[i], &r, &m, true, c, name)?;
        c.state(format!("{i} {name} {o}"));
        rejected(o, &format!("{}, {name}", bases[i].name))
    });
    // Many actions: each component of each of them.
    let nmany = x.q(22usize, 66);
    x.bound(format!("a bundle of {nmany} actions: every component, signature and place of every action altered"));
    let many: std::sync::OnceLock<Result<Base7, String>> = Default::default();
    x.space("many actions", &|c: &mut Chooser| {
        let b = many.get_or_init(|| make_std(seed, "many actions", 6, nmany, nmany / 2, 90));
        let b = b.as_ref().map_err(|e| e.clone())?;
        let i = c.pick("action", nmany);
        let how = c.pick("alteration", 9);
        let mut r = b.r.clone();
        let j = (i + 1) % nmany;
        let one = Scalar::one();
        let what = match how {
            0 => {
                let x = &mut r.actions[i].nf;
                *x = (refm::base(x).unwrap() + refm::Base::one()).to_repr();
                "nullifier + 1"
            }
            1 => {
                let x = &mut r.actions[i].rk;
                *x = add_pt(x, &refm::spend_auth_g());
                "rk + the base"
            }
            2 => {
                let x = &mut r.actions[i].cmx;
                *x = (refm::base(x).unwrap() - refm::Base::one()).to_repr();
                "cmx - 1"
            }
            3 => {
                r.actions[i].cv = add_pt(&r.actions[i].cv, &refm::value_v());
                r.actions[j].cv = add_pt(&r.actions[j].cv, &-refm::value_v());
                "value moved from the next action"
            }
            4 => {
                shift(&mut r.sigs[i], one);
                "signature + 1"
            }
            5 => {
                r.sigs[i] = [0; 64];
                "signature := zero"
            }
            6 => {
                r.actions.swap(i, j);
                r.sigs.swap(i, j);
                "exchanged with the next"
            }
            7 => {
                r.actions.remove(i);
                r.sigs.remove(i);
                "removed"
            }
            _ => {
                let (a, s) = (r.actions[i].clone(), r.sigs[i]);
                r.actions.push(a);
                r.sigs.push(s);
                "repeated at the end"
            }
        };
        let what = format!("action {i} of {nmany}: {what}");
        let o = verdicts(std::slice::from_ref(b), b, &r, &b.msg, how != 0 && how != 2 || i % 4 == 3, c, &what)?;
        c.state(&what);
        rejected(o, &what)
    });
    // Proof bytes.
    let step = x.q(8usize, 2);
    x.space("proof bytes", &|c: &mut Chooser| {
        let i = c.pick("bundle", bases.len());
        let b = &bases[i];
        let k = c.pick("byte", (b.r.proof.len() + step - 1) / step) * step;
        // The offset and the bit rotate from step to step.
        let (off, m) = (k / step % step, [1u8, 0x80][k / step / step % 2]);
        let k = (k + off).min(b.r.proof.len() - 1);
        let mut r = b.r.clone();
        r.proof[k] ^= m;
        let what = format!("proof byte {k} ^ {m:#x}");
        let o = verdicts(&bases, b, &r, &b.msg, k % 16 == 0, c, &what)?;
        c.state(format!("{i} {what}"));
        rejected(o, &what)
    });
    x.space("proof lengths", &|c: &mut Chooser| {
        let i = c.pick("bundle", bases.len());
        let b = &bases[i];
        let every = if every_bit { 1 } else { 8 };
        let n = b.r.proof.len();
        let k = c.pick("bytes removed/step", n / every) * every + 1;
        let mut r = b.r.clone();
        r.proof.truncate(n.saturating_sub(k));
        let what = format!("proof cut by {k} bytes");
        let o = verdicts(&bases, b, &r, &b.msg, k % 64 == 1, c, &what)?;
        c.state(format!("{i} {what}"));
        rejected(o, &what)
    });
    // Every pair of alterations drawn from the coarse list.
    let coarse: Vec<Vec<usize>> = alts
        .iter()
        .map(|a| (0..a.len()).filter(|i| !a[*i].0.contains(" byte ") || a[*i].0.contains(" byte 7 ^ 0x1")).collect())
        .collect();
    let stride = x.q(13usize, 12);
    let pb = x.q(1, bases.len());
    x.space("pairs", &|c: &mut Chooser| {
        let i = c.pick("bundle", pb);
        let b = &bases[i];
        let n = coarse[i].len();
        let p = c.pick("first", n);
        let q = c.pick("second", n / stride);
        let q = (q * stride + p) % n;
        let ((n1, f1), (n2, f2)) = (&alts[i][coarse[i][p]], &alts[i][coarse[i][q]]);
        let (mut r, mut m) = (b.r.clone(), b.msg);
        // An alteration of an action that the first one removed is not applicable.
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            f1(&mut r, &mut m);
            f2(&mut r, &mut m);
        }))
        .is_ok();
        if !ok {
            c.outcome("not applicable");
            return Ok(());
        }
        let what = format!("{n1}; {n2}");
        let same = columns(&r) == b.cols && r.proof == b.r.proof && m == b.msg && r.sigs == b.r.sigs && r.binding == b.r.binding && r.balance == b.r.balance;
        let o = verdicts(&bases, b, &r, &m, p % 8 == 0, c, &what)?;
        c.state(format!("{i} {p} {q}"));
        if same {
            eq!(o, "accepted", "{}: {what} undo each other, verdict", b.name);
            Ok(())
        } else {
            rejected(o, &what)
        }
    });
    if !x.is_replay() && !x.has_violation() {
        let oc = x.outcomes("single");
        let want = ["signature rejected", "proof rejected", "both rejected", "does not parse"];
        x.aggregate("single", if want.iter().all(|w| oc.contains_key(*w)) { Ok(()) } else { Err(format!("not every verdict was reached: {oc:?}")) });
    }
}
// ------------------------------------------------------------------ C08

pub fn c08(x: &mut Ctx) {
    let seed = x.seed;
    both_keys();
    let made: Result<Vec<Base7>, String> = [("A", 6, 2, 1), ("B", 0, 1, 1), ("C", 9, 0, 1)]
        .iter()
        .enumerate()
        .map(|(i, (n, v, s, o))| make_std(seed, n, *v, *s, *o, 20 + i as u64))
        .collect();
    let bases = match made {
        Ok(b) => b,
        Err(e) => {
            x.space("fixtures", &|_: &mut Chooser| Err(format!("an honest bundle could not be authorized: {e}")));
            return;
        }
    };
    let (a, b, cb) = (&bases[0], &bases[1], &bases[2]);
    let one = Scalar::one();
    let mut pool: Vec<(String, RBundle, [u8; 32])> = vec![];
    let mut add = |n: &str, x: &Base7, f: &dyn Fn(&mut RBundle, &mut [u8; 32])| {
        let (mut r, mut m) = (x.r.clone(), x.msg);
        f(&mut r, &mut m);
        pool.push((n.into(), r, m));
    };
    add("A", a, &|_, _| {});
    add("B", b, &|_, _| {});
    add("C (coinbase)", cb, &|_, _| {});
    add("A with another balance", a, &|r, _| r.balance += 1);
    add("A with an altered proof", a, &|r, _| {
        let n = r.proof.len();
        r.proof[n - 40] ^= 1
    });
    add("A with B's proof", a, &|r, _| r.proof = b.r.proof.clone());
    add("B with A's proof", b, &|r, _| r.proof = a.r.proof.clone());
    add("C with a truncated proof", cb, &|r, _| {
        r.proof.pop();
    });
    add("A, last spend signature + 1", a, &|r, _| shift(r.sigs.last_mut().unwrap(), one));
    add("B, first spend signature - 1", b, &|r, _| shift(&mut r.sigs[0], -one));
    add("A, binding signature + 1", a, &|r, _| shift(&mut r.binding, one));
    add("C, binding signature - 1", cb, &|r, _| shift(&mut r.binding, -one));
    add("A over another message", a, &|_, m| m[31] ^= 0x80);
    add("A, first spend signature + 1, last - 1", a, &|r, _| {
        shift(&mut r.sigs[0], one);
        shift(r.sigs.last_mut().unwrap(), -one)
    });
    add("B with identity rk", b, &|r, m| {
        r.actions[0].rk = [0; 32];
        r.sigs[0] = refm::redpallas_sign(&refm::spend_auth_g(), &Scalar::zero(), b"t", &m[..]);
    });
    add("C with other flags", cb, &|r, _| r.flags ^= 1);
    add("C over B's message", cb, &|_, m| *m = b.msg);
    if x.thorough() {
        add("A with an unparsable R", a, &|r, _| r.sigs[0][..32].fill(0xff));
        add("B, non-canonical s", b, &|r, _| {
            let o = add_order(&r.sigs[0][32..].try_into().unwrap());
            r.sigs[0][32..].copy_from_slice(&o);
        });
        add("C with B's anchor", cb, &|r, _| r.anchor = b.r.anchor);
    }
    // Individual verdicts.
    let mut items: Vec<(String, Done, [u8; 32], bool, bool)> = vec![];
    for (n, r, m) in &pool {
        let Some(real) = r.real() else { continue };
        let base = [a, b, cb].into_iter().find(|q| q.name == n[..1]).unwrap();
        let proof = r.proof == base.r.proof && columns(r) == base.cols;
        items.push((n.clone(), real, *m, proof, r.sigs_valid(m)));
    }
    let depth = x.q(3, 4);
    // Longer sequences over fewer members.
    let small: Vec<usize> = [0, 2, 5, 9, 10].into_iter().filter(|i| *i < items.len()).collect();
    let long = x.q(4, 6);
    x.bound(format!("{} bundles (3 valid; the others invalid in one part, some cancelling each other); all sequences of up to {depth} of them, and of up to {long} of {} of them, each bundle any number of times; two validator randomness streams and a constant one", items.len(), small.len()));
    x.assume("individual validity: the proof verifies only unaltered (C07), signatures by the reference (C23); halo2's batch verifier draws its own randomness from the operating system, which cannot be scripted");
    x.space("individual", &|c: &mut Chooser| {
        let (n, b, m, p, s) = c.of("bundle", &items);
        eq!(b.verify_proof(vk()).is_ok(), *p, "{n}: proof");
        let sigs = b.actions().iter().all(|a| a.rk().verify(m, a.authorization()).is_ok())
            && b.binding_validating_key().verify(m, b.authorization().binding_signature()).is_ok();
        eq!(sigs, *s, "{n}: signatures");
        c.state(n);
        c.outcome(format!("proof {p} signatures {s}"));
        c.compared_n(2);
        Ok(())
    });
    let run = |c: &mut Chooser, seq: Vec<usize>, rng: usize| -> Result<(), String> {
        let names: Vec<&str> = seq.iter().map(|i| items[*i].0.as_str()).collect();
        let want = seq.iter().all(|i| items[*i].3 && items[*i].4);
        let mut v = if rng == 1 { BatchValidator::default() } else { BatchValidator::new() };
        for i in &seq {
            v.add_bundle(&items[*i].1, items[*i].2);
        }
        let got = match rng {
            0 => v.validate(vk(), DetRng::new(seed, "c08", 0)),
            1 => v.validate(vk(), DetRng::new(seed, "c08", 1)),
            _ => v.validate(vk(), ConstRng::new(0x77)),
        };
        eq!(got, want, "batch {names:?}");
        c.outcome(format!("{} members: {want}", seq.len()));
        c.state(format!("{seq:?}"));
        c.compared();
        Ok(())
    };
    x.space("sequences", &|c: &mut Chooser| {
        let n = c.pick("members", depth + 1);
        let seq: Vec<usize> = (0..n).map(|_| c.pick("bundle", items.len())).collect();
        let sum: usize = seq.iter().sum();
        run(c, seq, sum % 2)
    });
    x.space("long sequences", &|c: &mut Chooser| {
        let n = c.pick("members", long + 1);
        let seq: Vec<usize> = (0..n).map(|_| small[c.pick("bundle", small.len())]).collect();
        // With a constant stream all signatures get the same weight, so only sequences
        // without cancelling members are meaningful there.
        let rng = if seq.iter().all(|i| *i != 9 && *i != 10) { 2 } else { 0 };
        run(c, seq, rng)
    });
    // Large batches of valid bundles with at most one invalid one, at every position.
    let find = |n: &str| items.iter().position(|i| i.0 == n);
    let most = x.q(48, 150);
    let kinds: Vec<(usize, usize, bool)> = [
        ("C (coinbase)", "C, binding signature - 1"),
        ("C (coinbase)", "C over B's message"),
        ("A", "A, last spend signature + 1"),
        ("C (coinbase)", "C with a truncated proof"),
        ("A", "A with B's proof"),
    ]
    .iter()
    .filter_map(|(g, b)| Some((find(g)?, find(b)?)))
    .map(|(g, b)| (g, b, items[b].3))
    .collect();
    x.bound(format!("batches of every size up to {most}, all valid, and with one member of each of {} kinds of invalidity: invalid signatures at every position, invalid proofs first, in the middle and last in batches of 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, … members", kinds.len()));
    x.space("large", &|c: &mut Chooser| {
        let n = c.pick("members", most) + 1;
        let near = [1usize, 2, 4, 8, 16, 32, 64, 128].iter().any(|p| n.abs_diff(*p) <= 1);
        let (good, bad, sigs) = kinds[c.pick("kind", kinds.len())];
        let at: Vec<Option<usize>> = if sigs {
            let all = if near { vec![None] } else { vec![] };
            all.into_iter().chain((0..n).map(Some)).collect()
        } else if near {
            let mut l = vec![0, n / 2, n - 1];
            l.dedup();
            l.into_iter().map(Some).collect()
        } else {
            vec![]
        };
        let Some(at) = at.get(c.pick("position", at.len().max(1))).copied() else {
            return Ok(());
        };
        let seq: Vec<usize> = (0..n).map(|i| if Some(i) == at { bad } else { good }).collect();
        let mut v = BatchValidator::new();
        for i in &seq {
            v.add_bundle(&items[*i].1, items[*i].2);
        }
        let want = at.is_none();
        eq!(v.validate(vk(), DetRng::new(seed, "c08", n as u64)), want, "{n} members, {:?} at {at:?}", items[bad].0);
        c.state(format!("{n} {bad} {at:?}"));
        c.outcome(format!("large: {want}"));
        c.compared();
        Ok(())
    });
    // Members with many actions.
    let nmany = x.q(22usize, 66);
    x.bound(format!("a bundle of {nmany} actions alone, before and after another, valid and with each signature invalid in turn"));
    let many: std::sync::OnceLock<Result<Base7, String>> = Default::default();
    x.space("many actions", &|c: &mut Chooser| {
        let b = many.get_or_init(|| make_std(seed, "many actions", 6, nmany / 2, nmany, 91));
        let b = b.as_ref().map_err(|e| e.clone())?;
        let i = c.pick("invalid signature", nmany + 2);
        let mut r = b.r.clone();
        match i.checked_sub(1) {
            None => (),
            Some(k) if k < nmany => shift(&mut r.sigs[k], one),
            _ => shift(&mut r.binding, -one),
        }
        let real = r.real().ok_or("the bundle does not parse")?;
        let (other, om) = (&items[0].1, items[0].2);
        let place = c.pick("place", 3);
        let l: Vec<(&Done, [u8; 32])> = match place {
            0 => vec![(&real, b.msg)],
            1 => vec![(&real, b.msg), (other, om)],
            _ => vec![(other, om), (&real, b.msg)],
        };
        eq!(batch(&l), i == 0, "{nmany} actions, invalid signature {i}, place {place}");
        c.state(format!("{i} {place}"));
        c.outcome(format!("many actions: {}", i == 0));
        c.compared();
        Ok(())
    });
    if !x.is_replay() && !x.has_violation() {
        let oc = x.outcomes("sequences");
        let want: Vec<String> = (1..=depth).flat_map(|d| [true, false].map(|w| format!("{d} members: {w}"))).collect();
        x.aggregate("sequences", if want.iter().all(|w| oc.contains_key(w)) { Ok(()) } else { Err(format!("not every verdict was reached: {oc:?}")) });
    }
}
