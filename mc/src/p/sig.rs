//! C23 RedPallas, C26 value commitments and binding keys.

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::p::commit::{gen_action, unauth, Amount};
use crate::refm::{self, RAction, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::{
    primitives::redpallas::{self, batch, Binding, SigType, Signature, SigningKey, SpendAuth, VerificationKey},
    value::*,
};

fn sk<T: SigType>(s: &Scalar) -> SigningKey<T> {
    SigningKey::try_from(s.to_repr()).ok().expect("signing key")
}
fn scalars(seed: u64, n: u64) -> Vec<Scalar> {
    let mut v = vec![
        Scalar::one(),
        Scalar::from(2),
        -Scalar::one(),
        -Scalar::from(2),
        Scalar::from(u64::MAX),
        Scalar::from(2).pow_vartime([254]),
        Scalar::zero(),
    ];
    for i in 0..n {
        v.push(rscalar(seed, "sk", i));
    }
    v
}
fn messages(seed: u64) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0; 32], vec![0xff; 32], vec![0; 64]];
    v.push(bytes32(seed, "msg", 0).to_vec());
    v.push(bytes32(seed, "msg", 0)[..31].to_vec());
    v.push([&bytes64(seed, "msg", 1)[..], &bytes64(seed, "msg", 2), &[7]].concat());
    v
}
fn bp(spend: bool) -> refm::Point {
    if spend {
        refm::spend_auth_g()
    } else {
        refm::value_r()
    }
}

/// Checks one key/message/randomness for a signature type.
fn check_sign<T: SigType>(c: &mut Chooser, seed: u64, spend: bool, s: &Scalar, m: &[u8], r: u64) -> Result<(), String> {
    let k: SigningKey<T> = sk(s);
    let vk = VerificationKey::from(&k);
    let vkb: [u8; 32] = (&vk).into();
    eq!(hx(vkb), hx((bp(spend) * s).to_bytes()), "verification key");
    let (mut r1, mut r2) = (DetRng::new(seed, "sign", r), DetRng::new(seed, "sign", r));
    let a: [u8; 64] = (&k.sign(&mut r1, m)).into();
    let b: [u8; 64] = (&k.sign(&mut r2, m)).into();
    eq!(hx(a), hx(b), "signing twice with equal randomness");
    ensure!(refm::redpallas_verify(&bp(spend), &vkb, m, &a), "the signature is not one of the specified scheme");
    eq!(vk.verify(m, &Signature::from(a)).is_ok(), true, "verification of an honest signature");
    ensure!(a[..32] != [0; 32], "the nonce is zero");
    // Fresh randomness, a different message: fresh nonce.
    let mut r3 = DetRng::new(seed, "sign", r + 1000);
    let d: [u8; 64] = (&k.sign(&mut r3, m)).into();
    ensure!(d[..32] != a[..32], "the nonce does not depend on the randomness");
    let mut r4 = DetRng::new(seed, "sign", r);
    let mut m2 = m.to_vec();
    m2.push(1);
    let e: [u8; 64] = (&k.sign(&mut r4, &m2)).into();
    ensure!(e[..32] != a[..32], "the nonce does not depend on the message");
    c.state(a);
    c.compared_n(6);
    Ok(())
}

fn check_verify<T: SigType>(c: &mut Chooser, spend: bool, vk: &[u8; 32], m: &[u8], sig: &[u8; 64], what: &str) -> Result<bool, String> {
    let want = refm::redpallas_verify(&bp(spend), vk, m, sig);
    let Ok(v) = VerificationKey::<T>::try_from(*vk) else {
        ensure!(refm::pt(vk).is_none(), "valid key rejected");
        return Ok(false);
    };
    eq!(v.verify(m, &Signature::from(*sig)).is_ok(), want, "verification, {what}");
    c.compared();
    Ok(want)
}

pub fn c23(x: &mut Ctx) {
    let seed = x.seed;
    let keys = scalars(seed, x.q(4, 40));
    let msgs = messages(seed);
    x.bound(format!("{} keys (edges and hashes) x {} messages x 4 randomness streams x both signature types; every message length below {} and key below {}; every bit of signature, key and message flipped; edge encodings of R, S and the key; randomizers at the edges; batches of up to {} items over 9 kinds of item", keys.len(), msgs.len(), x.q(300, 2000), x.q(256, 4096), x.q(3, 4)));
    x.assume("RedDSA's internals (reddsa dependency) are compared with the specified equation, BLAKE2b and Pallas arithmetic are trusted; the batch verifier accepts an invalid batch with probability at most 2^-128 per draw");
    x.space("sign", &|c: &mut Chooser| {
        let s = *c.of("key", &keys);
        let m = c.of("message", &msgs);
        let r = c.pick("randomness", 4) as u64;
        if c.flag("binding") {
            check_sign::<Binding>(c, seed, false, &s, m, r)
        } else {
            check_sign::<SpendAuth>(c, seed, true, &s, m, r)
        }
    });
    // Every length of a message and every small key.
    let (ml, kl) = (x.q(300usize, 2000), x.q(256usize, 4096));
    x.space("sizes", &|c: &mut Chooser| {
        let spend = !c.flag("binding");
        let (s, m): (Scalar, Vec<u8>) = if c.flag("small keys") {
            (Scalar::from(c.pick("key", kl) as u64), vec![9; 32])
        } else {
            (keys[8], (0..c.pick("length", ml)).map(|i| (i * 7) as u8).collect())
        };
        if spend {
            check_sign::<SpendAuth>(c, seed, true, &s, &m, m.len() as u64)
        } else {
            check_sign::<Binding>(c, seed, false, &s, &m, m.len() as u64)
        }
    });
    let probe = x.q(vec![keys[7]], vec![keys[7], keys[0], keys[2]]);
    x.space("verify", &|c: &mut Chooser| {
        let s = *c.of("key", &probe);
        let spend = !c.flag("binding");
        let m0 = msgs[5].clone();
        let vk0 = (bp(spend) * s).to_bytes();
        let sig0 = refm::redpallas_sign(&bp(spend), &s, &[3; 80], &m0);
        let (mut vk, mut m, mut sig) = (vk0, m0, sig0);
        let mut expect = Some(false);
        match c.pick("alteration", 8) {
            0 => {
                let b = c.pick("signature bit", 512);
                sig[b / 8] ^= 1 << (b % 8);
            }
            1 => {
                let b = c.pick("key bit", 256);
                vk[b / 8] ^= 1 << (b % 8);
            }
            2 => {
                let b = c.pick("message bit", 256);
                m[b / 8] ^= 1 << (b % 8);
            }
            3 => match c.pick("message length", 3) {
                0 => m.push(0),
                1 => {
                    m.pop();
                }
                _ => m.insert(0, 0),
            },
            4 => {
                // S shifted by the group order: same residue, invalid encoding.
                let q = hex::decode("0100000021eb468cdda89409fc98462200000000000000000000000000000040").unwrap();
                let mut carry = 0u16;
                for i in 0..32 {
                    let t = sig[32 + i] as u16 + q[i] as u16 + carry;
                    sig[32 + i] = t as u8;
                    carry = t >> 8;
                }
            }
            5 => {
                // A signature under the identity key: R = [S]B satisfies the equation.
                vk = [0; 32];
                let t = *c.of("S", &[Scalar::zero(), Scalar::one(), rscalar(seed, "s", 1)]);
                sig[..32].copy_from_slice(&(bp(spend) * t).to_bytes());
                sig[32..].copy_from_slice(&t.to_repr());
                expect = Some(true);
            }
            6 => {
                // R = identity with the matching S (nonce zero).
                sig[..32].copy_from_slice(&[0; 32]);
                let ch = refm::h_star(&[&[0; 32], &vk, &m]);
                let d = *c.of("offset", &[Scalar::zero(), Scalar::one()]);
                sig[32..].copy_from_slice(&(ch * s + d).to_repr());
                expect = Some(bool::from(d.is_zero()));
            }
            _ => {
                // The other type's base point.
                sig = refm::redpallas_sign(&bp(!spend), &s, &[3; 80], &m);
                if c.flag("with the other type's key") {
                    vk = (bp(!spend) * s).to_bytes();
                }
            }
        }
        let got = if spend {
            check_verify::<SpendAuth>(c, true, &vk, &m, &sig, "altered")?
        } else {
            check_verify::<Binding>(c, false, &vk, &m, &sig, "altered")?
        };
        // The reference verdict must be the designed one where the key parses.
        if refm::pt(&vk).is_some() {
            eq!(got, expect.unwrap(), "designed verdict");
        }
        c.state([&vk[..], &sig, &m].concat());
        Ok(())
    });
    let als: Vec<Scalar> = scalars(seed + 1, 3);
    x.space("randomize", &|c: &mut Chooser| {
        let s = *c.of("key", &keys);
        let mut al = als.clone();
        al.push(s);
        al.push(-s);
        al.push(Scalar::one() - s);
        let a = *c.of("randomizer", &al);
        let k: SigningKey<SpendAuth> = sk(&s);
        let rk = k.randomize(&a);
        eq!(hx(<[u8; 32]>::from(&rk)), hx((s + a).to_repr()), "randomized signing key");
        let rv = VerificationKey::from(&k).randomize(&a);
        eq!(hx(<[u8; 32]>::from(&rv)), hx((bp(true) * (s + a)).to_bytes()), "randomized verification key");
        ensure!(rv == VerificationKey::from(&rk), "randomized keys do not correspond");
        let sig = rk.sign(DetRng::new(seed, "rand", 0), b"m");
        eq!(rv.verify(b"m", &sig).is_ok(), true, "signature under the randomized key");
        let vk = VerificationKey::from(&k);
        eq!(vk.verify(b"m", &sig).is_ok(), bool::from(a.is_zero()), "signature of the randomized key under the original one");
        c.state([s.to_repr(), a.to_repr()].concat());
        c.compared_n(5);
        Ok(())
    });
    // Batches: every sequence of up to k items over the kinds below.
    let kmax = x.q(3, 4);
    let s1 = rscalar(seed, "sk", 0);
    let msg = bytes32(seed, "msg", 0);
    let sg = |spend: bool, t: u8, m: &[u8]| refm::redpallas_sign(&bp(spend), &s1, &[t; 80], m);
    let bad_s = |mut s: [u8; 64]| {
        let x: [u8; 32] = s[32..].try_into().unwrap();
        s[32..].copy_from_slice(&(refm::scalar(&x).unwrap() + Scalar::one()).to_repr());
        s
    };
    let neg = |mut s: [u8; 64]| {
        let x: [u8; 32] = s[32..].try_into().unwrap();
        s[32..].copy_from_slice(&(refm::scalar(&x).unwrap() - Scalar::one()).to_repr());
        s
    };
    // (spend, vk, msg, sig)
    let kinds: Vec<(bool, [u8; 32], Vec<u8>, [u8; 64])> = vec![
        (true, (bp(true) * s1).to_bytes(), msg.to_vec(), sg(true, 1, &msg)),
        (false, (bp(false) * s1).to_bytes(), msg.to_vec(), sg(false, 2, &msg)),
        (true, (bp(true) * s1).to_bytes(), msg.to_vec(), bad_s(sg(true, 3, &msg))),
        (true, (bp(true) * s1).to_bytes(), msg.to_vec(), neg(sg(true, 3, &msg))),
        (false, (bp(false) * s1).to_bytes(), msg.to_vec(), bad_s(sg(false, 4, &msg))),
        (true, (bp(true) * s1).to_bytes(), b"other".to_vec(), sg(true, 5, &msg)),
        (false, (bp(true) * s1).to_bytes(), msg.to_vec(), sg(true, 6, &msg)),
        (true, [0; 32], msg.to_vec(), [0; 64]),
        (true, (bp(true) * s1).to_bytes(), msg.to_vec(), [0xff; 64]),
    ];
    x.space("batch", &|c: &mut Chooser| {
        let n = c.pick("items", kmax + 1);
        let mut v = batch::Verifier::<SpendAuth, Binding>::new();
        let mut want = true;
        let mut key = vec![];
        for _ in 0..n {
            let i = c.pick("item", kinds.len());
            key.push(i as u8);
            let (spend, vk, m, s) = &kinds[i];
            want &= refm::redpallas_verify(&bp(*spend), vk, m, s);
            if *spend {
                v.queue(VerificationKey::<SpendAuth>::try_from(*vk).unwrap().create_batch_item(Signature::from(*s), m));
            } else {
                v.queue(VerificationKey::<Binding>::try_from(*vk).unwrap().create_batch_item(Signature::from(*s), m));
            }
        }
        eq!(v.verify(DetRng::new(seed, "batch", 0)).is_ok(), want, "batch {key:?}");
        c.state(key);
        c.compared();
        c.outcome(format!("{n} {want}"));
        Ok(())
    });
    let _ = redpallas::Signature::<Binding>::from([0; 64]);
}

fn values() -> Vec<(u64, u64)> {
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 1000, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1];
    for b in 0..64 {
        v.push(1 << b);
        v.push((1u64 << b).wrapping_sub(1));
        v.push(!(1u64 << b));
    }
    v.sort();
    v.dedup();
    let mut p: Vec<(u64, u64)> = v.iter().flat_map(|x| [(*x, 0), (0, *x), (*x, 1), (1, *x)]).collect();
    p.extend([(u64::MAX, u64::MAX), (5, 5), (1 << 63, (1 << 63) - 1)]);
    p.sort();
    p.dedup();
    p
}
fn trapdoor(s: &Scalar) -> ValueCommitTrapdoor {
    Option::from(ValueCommitTrapdoor::from_bytes(s.to_repr())).expect("trapdoor")
}
fn vsum(p: &(u64, u64)) -> ValueSum {
    NoteValue::from_raw(p.0) - NoteValue::from_raw(p.1)
}
fn vint(p: &(u64, u64)) -> i128 {
    p.0 as i128 - p.1 as i128
}

pub fn c26(x: &mut Ctx) {
    let seed = x.seed;
    let vals = values();
    let rcvs = scalars(seed, x.q(2, 20));
    x.bound(format!("{} value pairs (each bit of the magnitude, both signs, range edges) x {} trapdoors; every value of absolute value below {}; sums of up to 3 commitments over an edge grid, and of up to 257 (thorough 1000) in which two terms recur in up to six patterns; binding keys of bundles of 1..=4 actions x 26 balances x 2 balance types; binding signatures against every neighbouring and mirrored balance", vals.len(), rcvs.len(), x.q(1 << 10, 1 << 16)));
    x.assume("Pallas arithmetic and hash-to-curve trusted");
    x.space("derive", &|c: &mut Chooser| {
        let p = c.of("value", &vals);
        let r = c.of("trapdoor", &rcvs);
        let got = ValueCommitment::derive(vsum(p), trapdoor(r)).to_bytes();
        eq!(hx(got), hx(refm::value_commit(vint(p), r).to_bytes()), "commitment to {}", vint(p));
        c.state(got);
        c.compared();
        Ok(())
    });
    let small = x.q(1usize << 10, 1 << 16);
    x.space("small", &|c: &mut Chooser| {
        let i = c.pick("value", small) as u64;
        let k = c.pick("form", 3);
        let p = [(i, 0), (0, i), (u64::MAX - i, i)][k];
        let r = if c.flag("large trapdoor") { -Scalar::from(i * i + 1) } else { Scalar::from(i) };
        let got = ValueCommitment::derive(vsum(&p), trapdoor(&r)).to_bytes();
        eq!(hx(got), hx(refm::value_commit(vint(&p), &r).to_bytes()), "commitment to {}", vint(&p));
        c.state([&got[..], &[k as u8]].concat());
        c.compared();
        Ok(())
    });
    let grid: Vec<(u64, u64)> = vec![(0, 0), (1, 0), (0, 1), (u64::MAX, 0), (0, u64::MAX), (1 << 63, 0), (0, 1 << 63), ((1 << 63) - 1, 0), (77, 0), (0, 77)];
    x.space("additive", &|c: &mut Chooser| {
        let n = c.pick("terms", 4);
        let mut cvs = vec![];
        let mut ts = vec![];
        let (mut v, mut t) = (0i128, Scalar::zero());
        let mut vs: Vec<ValueSum> = vec![];
        for i in 0..n {
            let p = *c.of("value", &grid);
            let r = if i == 2 { -t } else { rcvs[(i * 3 + p.0 as usize % 5) % rcvs.len()] };
            v += vint(&p);
            t += r;
            cvs.push(ValueCommitment::derive(vsum(&p), trapdoor(&r)));
            ts.push(trapdoor(&r));
            vs.push(vsum(&p));
        }
        let want = refm::value_commit(v, &t).to_bytes();
        eq!(hx(cvs.iter().sum::<ValueCommitment>().to_bytes()), hx(want), "sum of commitments by reference");
        eq!(hx(cvs.clone().into_iter().sum::<ValueCommitment>().to_bytes()), hx(want), "sum of commitments");
        let chained = cvs.iter().skip(1).fold(cvs.first().cloned(), |a, b| a.map(|a| a + b));
        if let Some(a) = chained {
            eq!(hx(a.to_bytes()), hx(want), "repeated addition");
            let d = a.clone() - cvs[0].clone();
            let w: ValueCommitment = cvs[1..].iter().sum();
            eq!(hx(d.to_bytes()), hx(w.to_bytes()), "difference of commitments");
        }
        // The trapdoors add to the trapdoor of the sum.
        let ts: ValueCommitTrapdoor = ts.iter().sum();
        let z = ValueCommitment::derive(vsum(&(0, 0)), ts.clone());
        eq!(hx(z.to_bytes()), hx((refm::value_r() * t).to_bytes()), "sum of trapdoors");
        // Values add exactly or not at all.
        let sums: Result<ValueSum, OverflowError> = vs.iter().sum();
        if let Ok(s) = sums {
            eq!(hx(ValueCommitment::derive(s, ts).to_bytes()), hx(want), "commitment to the sum {v}");
        }
        c.state([&want[..], &[n as u8]].concat());
        c.compared_n(5);
        Ok(())
    });
    // Many and coinciding terms: equal ones, ones that cancel, ones without value or trapdoor.
    let lens: Vec<usize> = if x.thorough() { vec![2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 129, 257, 1000] } else { vec![2, 3, 4, 5, 9, 17, 33, 65, 257] };
    let terms: Vec<(i128, Scalar)> = {
        let r = rscalar(seed, "term", 0);
        vec![(5, r), (-5, -r), (0, Scalar::zero()), (5, -r), (u64::MAX as i128, Scalar::zero()), (-(u64::MAX as i128), r), (0, r)]
    };
    let base3: Vec<RAction> = (0..3).map(|i| gen_action(seed, i)).collect();
    x.space("coincidences", &|c: &mut Chooser| {
        let n = *c.of("terms", &lens);
        let (a, b) = (c.of("a", &terms), c.of("b", &terms));
        // Where the other term stands: each residue of a short period, or one position.
        let pats: &[usize] = if n > 33 { &[1, 3] } else { &[0, 1, 2, 3, 4, 5] };
        let pat = *c.of("pattern", pats);
        let sel = |i: usize| match pat {
            0 => i % 2 == 0,
            1 => i % 3 == 0,
            2 => i == 0,
            3 => i == n - 1,
            4 => i == n / 2,
            _ => i < n / 2,
        };
        let (mut v, mut t) = (0i128, Scalar::zero());
        let (mut cvs, mut ts, mut acts) = (vec![], vec![], vec![]);
        for i in 0..n {
            let (w, r) = if sel(i) { a } else { b };
            v += w;
            t += r;
            cvs.push(ValueCommitment::derive(if *w < 0 { vsum(&(0, -w as u64)) } else { vsum(&(*w as u64, 0)) }, trapdoor(r)));
            ts.push(trapdoor(r));
            let mut act = base3[i % 3].clone();
            act.cv = refm::value_commit(*w, r).to_bytes();
            acts.push(act);
        }
        let fv = |v: i128| if v < 0 { -Scalar::from_u128(v.unsigned_abs()) } else { Scalar::from_u128(v as u128) };
        let want = (refm::value_v() * fv(v) + refm::value_r() * t).to_bytes();
        let what = format!("{n} terms of {} and {}, pattern {pat}", a.0, b.0);
        eq!(hx(cvs.iter().sum::<ValueCommitment>().to_bytes()), hx(want), "{what}: sum of commitments by reference");
        let ts: ValueCommitTrapdoor = ts.iter().sum();
        eq!(hx(ValueCommitment::derive(vsum(&(0, 0)), ts).to_bytes()), hx((refm::value_r() * t).to_bytes()), "{what}: sum of trapdoors");
        let folded = cvs.iter().skip(1).fold(cvs[0].clone(), |x, y| x + y);
        eq!(hx(folded.to_bytes()), hx(want), "{what}: repeated addition");
        eq!(hx(cvs.into_iter().sum::<ValueCommitment>().to_bytes()), hx(want), "{what}: sum of commitments");
        let b = unauth(&acts, 3, 0, &[0; 32]);
        for bal in [0i64, 5, -5, i64::MIN] {
            let b = b.clone().try_map_value_balance::<_, (), _>(|_| Ok(bal)).unwrap();
            let got: [u8; 32] = (&b.binding_validating_key()).into();
            let want = (refm::value_v() * fv(v - bal as i128) + refm::value_r() * t).to_bytes();
            eq!(hx(got), hx(want), "{what}: binding validating key for balance {bal}");
        }
        c.state(&what);
        c.compared_n(8);
        Ok(())
    });
    // Bundles whose value commitments are known.
    let bals: Vec<i64> = vec![
        0, 1, -1, 2, -2, 100, -100, 127, -128, 255, -256, 65535, 1 << 20, -(1 << 31), 1 << 32, -(1 << 32), 1 << 53, 2_100_000_000_000_000,
        -2_100_000_000_000_000, 1 << 62, -(1 << 62), i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1, -(i64::MAX - 1),
    ];
    let mk = |n: usize, v: &[i128], id: usize| -> (Vec<RAction>, Scalar) {
        let mut t = Scalar::zero();
        let acts = (0..n)
            .map(|i| {
                let mut a = gen_action(seed, i as u64);
                let r = rscalar(seed, "rcv", (i + 10 * id) as u64);
                t += r;
                a.cv = refm::value_commit(v[i], &r).to_bytes();
                a
            })
            .collect();
        (acts, t)
    };
    x.space("binding-key", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 4);
        let bal = *c.of("balance", &bals);
        let kind = c.pick("commitments", 3);
        let v: Vec<i128> = (0..n).map(|i| [0i128, u64::MAX as i128, -(u64::MAX as i128), 5][(i + kind) % 4]).collect();
        let (mut acts, _) = mk(n, &v, kind);
        if kind == 2 {
            acts[0].cv = refm::Point::identity().to_bytes();
        }
        let mut want = refm::Point::identity();
        for a in &acts {
            want += refm::pt(&a.cv).unwrap();
        }
        want -= refm::value_v() * if bal < 0 { -Scalar::from(bal.unsigned_abs()) } else { Scalar::from(bal as u64) };
        let b = unauth(&acts, 3, bal, &[0; 32]);
        let got: [u8; 32] = (&b.binding_validating_key()).into();
        eq!(hx(got), hx(want.to_bytes()), "binding validating key, balance {bal}");
        let b2 = b.try_map_value_balance::<_, (), _>(|v| Ok(Amount(v))).unwrap();
        let got2: [u8; 32] = (&b2.binding_validating_key()).into();
        eq!(hx(got2), hx(got), "binding validating key with another balance type");
        c.state(got);
        c.compared_n(2);
        Ok(())
    });
    x.space("binding-signature", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 4);
        let bal = *c.of("balance", &bals);
        // Split the balance over the actions, with large terms that cancel.
        let mut v = vec![0i128; n];
        for (i, x) in v.iter_mut().enumerate() {
            *x = if i % 2 == 0 { 1 << 62 } else { -(1 << 62) };
        }
        let s: i128 = v[..n - 1].iter().sum();
        v[n - 1] = bal as i128 - s;
        let (acts, t) = mk(n, &v, 7);
        let msg = bytes32(seed, "sighash", 0);
        let sig = refm::redpallas_sign(&refm::value_r(), &t, &[9; 80], &msg);
        let mut claims = vec![bal];
        for d in [1, -1, 256, i64::MIN, 1 << 32] {
            claims.push(bal.wrapping_add(d));
        }
        claims.push(bal.wrapping_neg());
        claims.push(bal as i32 as i64);
        let claim = *c.of("claimed balance", &claims);
        let b = unauth(&acts, 3, claim, &[0; 32]);
        let got = b.binding_validating_key().verify(&msg, &Signature::from(sig)).is_ok();
        eq!(got, claim == bal, "binding signature for balance {bal} under claimed balance {claim}");
        c.state(format!("{n} {bal} {claim}"));
        c.compared();
        c.outcome(format!("{got}"));
        Ok(())
    });
}
