//! C11 encryption and recovery, C12 decryption soundness, C13 scanning.

use super::commit::NoAuth;
use super::full::Req;
use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base, Pub, RAction, RNote, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::{
    keys::*,
    note::ExtractedNoteCommitment,
    note_encryption::{CompactAction, OrchardDomain, OrchardNoteEncryption},
    value::ValueCommitment,
    Action, Address, Bundle, Note,
};
use zcash_note_encryption::{
    batch, try_compact_note_decryption, try_note_decryption, try_output_recovery_with_ock, try_output_recovery_with_ovk, Domain,
    EphemeralKeyBytes,
};

type Plain = (RNote, [u8; 512]);

fn ivk_of(k: &refm::ScopeKeys) -> IncomingViewingKey {
    Option::from(IncomingViewingKey::from_bytes(&k.ivk_bytes())).expect("incoming key")
}
fn show(n: &RNote) -> String {
    format!("{}:{}:{}:{}", hx(n.addr), n.v, hx(n.rho.to_repr()), hx(n.rseed))
}
fn showm(p: &Plain) -> String {
    format!("{}:{}", show(&p.0), hx(refm::b2_256(b"orchard-mc-memo-", &[&p.1])))
}
fn full(r: Option<(Note, Address, [u8; 512])>) -> Result<Option<String>, String> {
    r.map(|(n, a, m)| {
        let rn = note_to_ref(&n);
        eq!(hx(rn.addr), hx(a.to_raw_address_bytes()), "the reported address is the note's");
        let cm: ExtractedNoteCommitment = n.commitment().into();
        eq!(hx(cm.to_bytes()), hx(rn.cmx().to_repr()), "commitment of the reported note");
        Ok(showm(&(rn, m)))
    })
    .transpose()
}
fn compact(r: Option<(Note, Address)>) -> Result<Option<String>, String> {
    r.map(|(n, a)| {
        let rn = note_to_ref(&n);
        eq!(hx(rn.addr), hx(a.to_raw_address_bytes()), "the reported address is the note's");
        Ok(show(&rn))
    })
    .transpose()
}
/// Real against reference decryption of one action with an incoming key.
fn check_ivk(a: &Action<u32>, p: &Pub, k: &refm::ScopeKeys, what: &str) -> Result<bool, String> {
    let pivk = PreparedIncomingViewingKey::new(&ivk_of(k));
    let want = refm::decrypt_ivk(p, &k.ivk).map(|p| showm(&p));
    let got = full(try_note_decryption(&OrchardDomain::for_action(a), &pivk, a))?;
    eq!(got, want, "{what}: decryption");
    let wantc = refm::decrypt_compact(p, &k.ivk).map(|n| show(&n));
    let ca = CompactAction::from(a);
    let gotc = compact(try_compact_note_decryption(&OrchardDomain::for_compact_action(&ca), &pivk, &ca))?;
    eq!(gotc, wantc, "{what}: compact decryption");
    let cb = CompactAction::from_parts(*a.nullifier(), *a.cmx(), EphemeralKeyBytes(p.epk), p.enc[..52].try_into().unwrap());
    let gotc = compact(try_compact_note_decryption(&OrchardDomain::for_action(a), &pivk, &cb))?;
    eq!(gotc, wantc, "{what}: decryption of the compact form from its parts");
    eq!(hx(ca.cmx().to_bytes()), hx(p.cmx), "{what}: compact commitment");
    eq!(hx(ca.nullifier().to_bytes()), hx(p.nf), "{what}: compact nullifier");
    eq!(hx(ca.rho().to_bytes()), hx(p.nf), "{what}: compact rho");
    Ok(want.is_some())
}
fn check_ovk(a: &Action<u32>, p: &Pub, ovk: &[u8; 32], what: &str) -> Result<bool, String> {
    let want = refm::decrypt_ovk(p, ovk).map(|p| showm(&p));
    let k = OutgoingViewingKey::from(*ovk);
    let d = OrchardDomain::for_action(a);
    let got = full(try_output_recovery_with_ovk(&d, &k, a, a.cv_net(), &p.out))?;
    eq!(got, want, "{what}: recovery");
    let ock = OrchardDomain::derive_ock(&k, a.cv_net(), &p.cmx, &EphemeralKeyBytes(p.epk));
    eq!(hx(ock.as_ref()), hx(refm::ock(ovk, &p.cv, &p.cmx, &p.epk)), "{what}: outgoing cipher key");
    let got = full(try_output_recovery_with_ock(&d, &ock, a, &p.out))?;
    eq!(got, want, "{what}: recovery with the cipher key");
    Ok(want.is_some())
}
fn to_raction(p: &Pub) -> RAction {
    RAction {
        nf: p.nf,
        rk: (refm::spend_auth_g() * Scalar::from(7)).to_bytes(),
        cmx: p.cmx,
        cv: p.cv,
        epk: p.epk,
        enc: p.enc.clone(),
        out: p.out.to_vec(),
    }
}
fn action(p: &Pub) -> Option<Action<u32>> {
    action_from(&to_raction(p), 0u32)
}
/// The action a sender following the protocol publishes.
fn honest(n: &RNote, memo: &[u8; 512], ovk: Option<&[u8; 32]>, cv: [u8; 32]) -> Pub {
    let t = refm::encrypt(n, memo, ovk, &cv);
    Pub { nf: n.rho.to_repr(), cmx: n.cmx().to_repr(), cv, epk: t.epk, enc: t.enc.to_vec(), out: t.out }
}
fn cv(seed: u64, i: u64) -> [u8; 32] {
    refm::value_commit(i as i128, &rscalar(seed, "cv", i)).to_bytes()
}

pub fn c11(x: &mut Ctx) {
    let seed = x.seed;
    let keys: Vec<Key> = (0..2).map(|i| Key::new(seed, i)).collect();
    let jmax = u128::MAX >> (128 - 88);
    let idxs: Vec<u128> = vec![0, 1, 1 << 32, jmax];
    let vals = [0u64, 1, 0x0102030405060708, i64::MAX as u64, u64::MAX];
    let rhos = [Base::zero(), -Base::one(), rbase(seed, "rho", 0)];
    let memos = x.q(12usize, 7 + 512);
    x.bound(format!("direct encryption: 2 keys x 2 scopes x 4 diversifier indices x {} values x {memos} memos (edge patterns and single set bytes) x 3 rho x {{no outgoing key, 3 outgoing keys}}, ciphertexts byte-exact; the same for every note seed below {} with memos and outgoing keys made from it; builder: every list of up to {} outputs over 8 recipient/value/memo/outgoing-key combinations with 0-2 spends, every action decrypted, re-encrypted and compared, by all incoming and outgoing keys", vals.len(), x.q(1 << 10, 1 << 14), x.q(2, 3)));
    x.assume("the outgoing ciphertext without an outgoing key is checked to be recoverable by none of the known keys (its randomness is C22's)");
    let ovks: Vec<[u8; 32]> = vec![keys[0].r.ext.ovk, keys[0].r.int.ovk, [0; 32], keys[1].r.ext.ovk, [0xff; 32]];
    let thorough = x.thorough();
    x.space("direct", &|c: &mut Chooser| {
        let k = c.of("key", &keys);
        let internal = c.flag("internal");
        // The first axes are full; memo and rho sweep at fixed values in turn.
        let j = *c.of("index", &idxs);
        let sweep = c.pick("sweep", 2);
        let (v, mi, r) = if sweep == 0 {
            (*c.of("value", &vals), c.pick("memo", 7), *c.of("rho", &rhos))
        } else {
            (5, 7 + c.pick("memo byte", memos - 7), rhos[2])
        };
        let ov = if thorough || sweep == 0 { c.pick("ovk", 4) } else { 1 };
        let n = rnote(k.addr(internal, j), v, r, bytes32(seed, "rs", mi as u64 + v % 97));
        let m = memo_bytes(&memo(mi));
        let ovk = (ov > 0).then(|| ovks[ov - 1]);
        let cvb = cv(seed, mi as u64);
        let what = format!("key {internal} index {j} value {v} memo {mi} ovk {ov}");
        let want = refm::encrypt(&n, &m, ovk.as_ref(), &cvb);
        let e = OrchardNoteEncryption::new(ovk.map(OutgoingViewingKey::from), note(&n), m);
        let epk = OrchardDomain::epk_bytes(e.epk()).0;
        eq!(hx(epk), hx(want.epk), "{what}: ephemeral key");
        let enc = e.encrypt_note_plaintext();
        eq!(hx(enc), hx(want.enc), "{what}: note ciphertext");
        let cvr: ValueCommitment = Option::from(ValueCommitment::from_bytes(&cvb)).ok_or("cv")?;
        let cmx: ExtractedNoteCommitment = note(&n).commitment().into();
        let out = e.encrypt_outgoing_plaintext(&cvr, &cmx, &mut DetRng::new(seed, "out", mi as u64));
        if ovk.is_some() {
            eq!(hx(out), hx(want.out), "{what}: outgoing ciphertext");
        }
        let p = Pub { nf: n.rho.to_repr(), cmx: n.cmx().to_repr(), cv: cvb, epk, enc: enc.to_vec(), out };
        let a = action(&p).ok_or("action")?;
        for (i, kk) in keys.iter().enumerate() {
            for int in [false, true] {
                let got = check_ivk(&a, &p, kk.r.scope(int), &what)?;
                eq!(got, kk.r.ak == k.r.ak && int == internal, "{what}: key {i} internal {int} decrypts");
            }
        }
        for o in &ovks {
            let got = check_ovk(&a, &p, o, &what)?;
            eq!(got, Some(*o) == ovk, "{what}: outgoing key {} recovers", hx(o));
        }
        c.state(hx(&enc[..40]));
        c.compared_n(20);
        Ok(())
    });

    // Every small note seed, outgoing key and memo byte.
    let small = x.q(1usize << 10, 1 << 14);
    x.space("small seeds", &|c: &mut Chooser| {
        let i = c.pick("seed", small);
        let internal = c.flag("internal");
        let k = &keys[i % 2];
        let mut s = [0u8; 32];
        s[..2].copy_from_slice(&(i as u16).to_le_bytes());
        let mut m = [0u8; 512];
        m[i % 512] = (i / 2) as u8;
        let n = rnote(k.addr(internal, i as u128), i as u64, Base::from(i as u64), s);
        let cvb = cv(seed, i as u64 % 16);
        s.rotate_right(i % 31);
        let what = format!("seed {i}");
        let want = refm::encrypt(&n, &m, Some(&s), &cvb);
        let e = OrchardNoteEncryption::new(Some(OutgoingViewingKey::from(s)), note(&n), m);
        eq!(hx(OrchardDomain::epk_bytes(e.epk()).0), hx(want.epk), "{what}: ephemeral key");
        eq!(hx(e.encrypt_note_plaintext()), hx(want.enc), "{what}: note ciphertext");
        let cvr: ValueCommitment = Option::from(ValueCommitment::from_bytes(&cvb)).ok_or("cv")?;
        let cmx: ExtractedNoteCommitment = note(&n).commitment().into();
        let out = e.encrypt_outgoing_plaintext(&cvr, &cmx, &mut DetRng::new(seed, "out", i as u64));
        eq!(hx(out), hx(want.out), "{what}: outgoing ciphertext");
        let p = honest(&n, &m, Some(&s), cvb);
        let a = action(&p).ok_or("action")?;
        ensure!(check_ivk(&a, &p, k.r.scope(internal), &what)?, "{what}: the recipient does not find the note");
        ensure!(check_ovk(&a, &p, &s, &what)?, "{what}: the sender does not recover the note");
        c.state(p.epk);
        c.compared_n(10);
        Ok(())
    });

    // History: a note, one that differs from it in one bit of one part, and the first again.
    let parts: [(&str, usize); 8] = [("diversifier", 11), ("value", 8), ("memo", 512), ("rho", 31), ("rseed", 32), ("ovk", 32), ("cv", 1), ("receiver", 4)];
    let hmasks: Vec<u8> = x.q(vec![0x10], vec![1, 0x10, 0x80]);
    let base_d = refm::idx(3);
    x.bound(format!("histories: encrypting a note, one that differs in one bit of one byte (of {parts:?}; {} masks), and the first again", hmasks.len()));
    x.space("neighbours in turn", &|c: &mut Chooser| {
        let (part, len) = *c.of("part", &parts);
        let i = c.pick("byte", len);
        let mask = *c.of("mask", &hmasks);
        let make = |changed: bool| -> (usize, bool, RNote, [u8; 512], [u8; 32], [u8; 32]) {
            let (mut ki, mut int) = (0, false);
            let mut d: [u8; 11] = base_d;
            let (mut v, mut m, mut r, mut s) = (0x0102030405060708u64, memo_bytes(&memo(4)), rhos[2].to_repr(), bytes32(seed, "rs", 77));
            let (mut o, mut cvb) = (keys[0].r.ext.ovk, cv(seed, 5));
            r[31] = 0;
            if changed {
                match part {
                    "diversifier" => d[i] ^= mask,
                    "value" => v ^= (mask as u64) << (8 * i),
                    "memo" => m[i] ^= mask,
                    "rho" => r[i] ^= mask,
                    "rseed" => s[i] ^= mask,
                    "ovk" => o[i] ^= mask,
                    "cv" => cvb = cv(seed, 6),
                    _ => (ki, int) = (i % 2, i > 1),
                }
            }
            let addr = keys[ki].r.scope(int).address(&d);
            (ki, int, rnote(addr, v, refm::base(&r).unwrap(), s), m, o, cvb)
        };
        for (step, changed) in [false, true, false].into_iter().enumerate() {
            let (ki, int, n, m, o, cvb) = make(changed);
            let what = format!("{part} byte {i} ^ {mask}, step {step}");
            let want = refm::encrypt(&n, &m, Some(&o), &cvb);
            let e = OrchardNoteEncryption::new(Some(OutgoingViewingKey::from(o)), note(&n), m);
            eq!(hx(OrchardDomain::epk_bytes(e.epk()).0), hx(want.epk), "{what}: ephemeral key");
            eq!(hx(e.encrypt_note_plaintext()), hx(want.enc), "{what}: note ciphertext");
            let cvr: ValueCommitment = Option::from(ValueCommitment::from_bytes(&cvb)).ok_or("cv")?;
            let cmx: ExtractedNoteCommitment = note(&n).commitment().into();
            eq!(hx(cmx.to_bytes()), hx(n.cmx().to_repr()), "{what}: commitment");
            let out = e.encrypt_outgoing_plaintext(&cvr, &cmx, &mut DetRng::new(seed, "out", 0));
            eq!(hx(out), hx(want.out), "{what}: outgoing ciphertext");
            let p = honest(&n, &m, Some(&o), cvb);
            let a = action(&p).ok_or("action")?;
            for (kj, kk) in keys.iter().enumerate() {
                for jnt in [false, true] {
                    eq!(check_ivk(&a, &p, kk.r.scope(jnt), &what)?, (kj, jnt) == (ki, int), "{what}: key {kj} {jnt} decrypts");
                }
            }
            ensure!(check_ovk(&a, &p, &o, &what)?, "{what}: the sender does not recover the note");
            c.compared_n(10);
        }
        c.state(format!("{part}{i}{mask}"));
        Ok(())
    });

    // Through the builder.
    let combos: Vec<(usize, bool, u128, u64, usize, usize)> = vec![
        (0, false, 0, 0, 0, 0),
        (0, true, 1, 1, 1, 1),
        (1, false, 1 << 40, 2_100_000_000_000_000, 2, 2),
        (1, true, jmax, 1 << 62, 3, 3),
        (0, false, 5, 77, 4, 4),
        (1, false, 6, 255, 5, 0),
        (0, true, 0, 1, 6, 5),
        (1, true, 0, 9, 7, 1),
    ];
    let omax = x.q(2, 3);
    let spend_notes = (0..2u64).map(|j| (keys[0].clone(), j == 1, rnote(keys[0].addr(j == 1, 3), 4, rbase(seed, "srho", j), bytes32(seed, "srs", j)))).collect();
    let (root, owned) = plant(spend_notes);
    x.space("built", &|c: &mut Chooser| {
        let s = c.pick("spends", 3);
        let o = c.pick("outputs", omax + 1);
        let coinbase = s == 0 && o > 0 && c.flag("coinbase");
        let sel: Vec<usize> = (0..o).map(|_| c.pick("output", combos.len())).collect();
        let bt = if coinbase { BT::Coinbase } else { BT::Tx { s: true, o: true, req: true } };
        let outs: Vec<_> = sel
            .iter()
            .map(|i| {
                let (k, int, j, v, m, ov) = combos[*i];
                (keys[k].addr(int, j), v, memo(m), (ov > 0).then(|| ovks[ov - 1]))
            })
            .collect();
        let req = Req { bt, root, spends: owned[..s].to_vec(), outs: outs.clone() };
        let what = format!("{s} spends, outputs {sel:?}");
        let (b, meta) = req.build(DetRng::new(seed, "c11", crate::engine::fnv(what.as_bytes())))?.ok_or("no bundle")?;
        let n = b.actions().len();
        let mut which = vec![None; n];
        for i in 0..o {
            which[meta.output_action_index(i).ok_or("no index")?] = Some(i);
        }
        for ai in 0..n {
            let a = &b.actions()[ai];
            let p = rpub(a);
            let mut owner = None;
            if let Some(i) = which[ai] {
                let (k, int, ..) = combos[sel[i]];
                let (addr, v, m, ovk) = &outs[i];
                owner = Some((k, int));
                let (rn, rm) = refm::decrypt_ivk(&p, &keys[k].r.scope(int).ivk).ok_or(format!("{what}: the recipient of output {i} cannot decrypt it"))?;
                eq!(hx(rn.addr), hx(addr), "{what}: address of output {i}");
                eq!(rn.v, *v, "{what}: value of output {i}");
                eq!(hx(rm), hx(memo_bytes(m)), "{what}: memo of output {i}");
                eq!(hx(rn.rho.to_repr()), hx(p.nf), "{what}: rho of output {i}");
                // Re-encrypt: the ciphertexts are the protocol's for this note.
                let t = refm::encrypt(&rn, &rm, ovk.as_ref(), &p.cv);
                eq!(hx(p.epk), hx(t.epk), "{what}: ephemeral key of output {i}");
                eq!(hx(&p.enc), hx(t.enc), "{what}: ciphertext of output {i}");
                if ovk.is_some() {
                    eq!(hx(p.out), hx(t.out), "{what}: outgoing ciphertext of output {i}");
                }
                let plain = showm(&(rn, rm));
                for (oi, k) in ovks.iter().enumerate() {
                    let got = full(b.recover_output_with_ovk(ai, &OutgoingViewingKey::from(*k)))?;
                    eq!(got, (Some(*k) == *ovk).then(|| plain.clone()), "{what}: recovery of output {i} with outgoing key {oi}");
                }
                for int in [false, true] {
                    for (ki, key) in keys.iter().enumerate() {
                        let got = full(b.decrypt_output_with_key(ai, &ivk_of(key.r.scope(int))))?;
                        eq!(got, (owner == Some((ki, int))).then(|| plain.clone()), "{what}: decryption of output {i} with key {ki} {int}");
                    }
                }
            } else {
                for k in &ovks {
                    ensure!(b.recover_output_with_ovk(ai, &OutgoingViewingKey::from(*k)).is_none(), "{what}: padding recovered");
                }
                for key in &keys {
                    for int in [false, true] {
                        ensure!(b.decrypt_output_with_key(ai, &ivk_of(key.r.scope(int))).is_none(), "{what}: padding decrypted");
                    }
                }
            }
            let a0 = action(&p).ok_or("action")?;
            for (ki, key) in keys.iter().enumerate() {
                for int in [false, true] {
                    eq!(check_ivk(&a0, &p, key.r.scope(int), &what)?, owner == Some((ki, int)), "{what}: action {ai}, key {ki} {int}");
                }
            }
            c.compared_n(16);
        }
        c.state(&what);
        Ok(())
    });
    // Each value with each outgoing key and kind of memo, through the builder.
    x.bound(format!("built outputs: {} values x 5 outgoing keys and none x 8 memos x 2 scopes, bundle type of either kind", vals.len()));
    x.space("built parts", &|c: &mut Chooser| {
        let v = *c.of("value", &vals);
        let ov = c.pick("ovk", 1 + ovks.len());
        let mi = c.pick("memo", 8);
        let int = c.flag("internal");
        let coinbase = c.flag("coinbase");
        let bt = if coinbase { BT::Coinbase } else { BT::Tx { s: true, o: true, req: true } };
        let ovk = (ov > 0).then(|| ovks[ov - 1]);
        let what = format!("value {v} ovk {ov} memo {mi} internal {int} coinbase {coinbase}");
        let req = Req { bt, root, spends: vec![], outs: vec![(keys[1].addr(int, 7), v, memo(mi), ovk)] };
        if v > i64::MAX as u64 {
            return Ok(());
        }
        let (b, meta) = req.build(DetRng::new(seed, "c11p", crate::engine::fnv(what.as_bytes())))?.ok_or("no bundle")?;
        let ai = meta.output_action_index(0).ok_or("no index")?;
        let p = rpub(&b.actions()[ai]);
        let (rn, rm) = refm::decrypt_ivk(&p, &keys[1].r.scope(int).ivk).ok_or(format!("{what}: the recipient cannot decrypt it"))?;
        eq!((rn.v, hx(rn.addr), hx(rm)), (v, hx(keys[1].addr(int, 7)), hx(memo_bytes(&memo(mi)))), "{what}: value, address and memo");
        let t = refm::encrypt(&rn, &rm, ovk.as_ref(), &p.cv);
        eq!(hx(p.epk), hx(t.epk), "{what}: ephemeral key");
        eq!(hx(&p.enc), hx(t.enc), "{what}: ciphertext");
        if ovk.is_some() {
            eq!(hx(p.out), hx(t.out), "{what}: outgoing ciphertext");
        }
        let plain = showm(&(rn, rm));
        eq!(full(b.decrypt_output_with_key(ai, &ivk_of(keys[1].r.scope(int))))?, Some(plain.clone()), "{what}: decryption");
        for k in &ovks {
            let got = full(b.recover_output_with_ovk(ai, &OutgoingViewingKey::from(*k)))?;
            eq!(got, (Some(*k) == ovk).then(|| plain.clone()), "{what}: recovery with {}", hx(k));
        }
        c.state(&what);
        c.compared_n(8);
        Ok(())
    });
    // Many outputs in one bundle, each with its own recipient, value, memo and outgoing key.
    let larger: Vec<usize> = x.q(vec![6, 10, 18, 40, 105], (3..=20).chain([33, 40, 65, 105, 130, 260]).collect());
    x.bound(format!("bundles of {larger:?} outputs, all different"));
    x.space("many outputs", &|c: &mut Chooser| {
        let o = *c.of("outputs", &larger);
        let coinbase = c.flag("coinbase");
        let bt = if coinbase { BT::Coinbase } else { BT::Tx { s: true, o: true, req: true } };
        let outs: Vec<_> = (0..o)
            .map(|i| {
                let mut m = [i as u8; 512];
                m[..8].copy_from_slice(&(i as u64).to_le_bytes());
                let ovk = (i % 3 != 1).then(|| bytes32(seed, "c11ovk", i as u64));
                (keys[i % 2].addr(i % 4 > 1, i as u128), 1 + i as u64 * 3, (i % 5 != 2).then_some(m), ovk)
            })
            .collect();
        let req = Req { bt, root, spends: if coinbase { vec![] } else { owned[..1].to_vec() }, outs: outs.clone() };
        let (b, meta) = req.build(DetRng::new(seed, "c11m", o as u64))?.ok_or("no bundle")?;
        for (i, (addr, v, m, ovk)) in outs.iter().enumerate() {
            let what = format!("output {i} of {o}");
            let ai = meta.output_action_index(i).ok_or("no index")?;
            let p = rpub(&b.actions()[ai]);
            let (rn, rm) = refm::decrypt_ivk(&p, &keys[i % 2].r.scope(i % 4 > 1).ivk).ok_or(format!("{what}: the recipient cannot decrypt it"))?;
            eq!(hx(rn.addr), hx(addr), "{what}: address");
            eq!(rn.v, *v, "{what}: value");
            eq!(hx(rm), hx(memo_bytes(m)), "{what}: memo");
            let plain = showm(&(rn, rm));
            let got = full(b.decrypt_output_with_key(ai, &ivk_of(keys[i % 2].r.scope(i % 4 > 1))))?;
            eq!(got, Some(plain.clone()), "{what}: decryption");
            for j in [i, (i + 3) % o] {
                let k = bytes32(seed, "c11ovk", j as u64);
                let got = full(b.recover_output_with_ovk(ai, &OutgoingViewingKey::from(k)))?;
                eq!(got, (Some(k) == *ovk).then(|| plain.clone()), "{what}: recovery with the outgoing key of output {j}");
            }
            c.compared_n(6);
        }
        c.state(format!("{o} {coinbase}"));
        Ok(())
    });
}

// --------------------------------------------------------------------------------- C12

/// Like `refm::honest`, from explicit parts that need not fit together.
#[derive(Clone)]
struct Craft {
    lead: u8,
    d: [u8; 11],
    v: u64,
    rseed: [u8; 32],
    memo: [u8; 512],
    esk: Scalar,
    base_d: [u8; 11],
    pk_d: refm::Point,
    cmx: [u8; 32],
    nf: [u8; 32],
    cv: [u8; 32],
    ovk: [u8; 32],
    out_pk: [u8; 32],
    out_esk: [u8; 32],
    epk: Option<[u8; 32]>,
}
impl Craft {
    fn of(n: &RNote, memo: [u8; 512], ovk: [u8; 32], cv: [u8; 32]) -> Self {
        Craft {
            lead: 2,
            d: n.d(),
            v: n.v,
            rseed: n.rseed,
            memo,
            esk: n.esk(),
            base_d: n.d(),
            pk_d: refm::pt(&n.pk_d()).unwrap(),
            cmx: n.cmx().to_repr(),
            nf: n.rho.to_repr(),
            cv,
            ovk,
            out_pk: n.pk_d(),
            out_esk: n.esk().to_repr(),
            epk: None,
        }
    }
    fn make(&self) -> Pub {
        let mut np = [0; 564];
        np[0] = self.lead;
        np[1..12].copy_from_slice(&self.d);
        np[12..20].copy_from_slice(&self.v.to_le_bytes());
        np[20..52].copy_from_slice(&self.rseed);
        np[52..].copy_from_slice(&self.memo);
        let epk = self.epk.unwrap_or_else(|| (refm::g_d(&self.base_d) * self.esk).to_bytes());
        let enc = refm::aead_enc(&refm::kdf(&(self.pk_d * self.esk), &epk), &np);
        let mut op = [0; 64];
        op[..32].copy_from_slice(&self.out_pk);
        op[32..].copy_from_slice(&self.out_esk);
        let out = refm::aead_enc(&refm::ock(&self.ovk, &self.cv, &self.cmx, &epk), &op).try_into().unwrap();
        Pub { nf: self.nf, cmx: self.cmx, cv: self.cv, epk, enc, out }
    }
    /// Commitment of the note the plaintext describes to a receiver at `pk_d`.
    fn commit(&mut self, pk_d: &[u8; 32]) {
        let mut addr = [0; 43];
        addr[..11].copy_from_slice(&self.d);
        addr[11..].copy_from_slice(pk_d);
        let n = RNote { addr, v: self.v, rho: refm::base(&self.nf).unwrap(), rseed: self.rseed };
        if let Some(cm) = n.cm() {
            self.cmx = refm::extract(&cm).to_repr()
        }
    }
}

pub fn c12(x: &mut Ctx) {
    let seed = x.seed;
    let keys: Vec<Key> = (0..2).map(|i| Key::new(seed, i)).collect();
    let k = &keys[0];
    let n = rnote(k.addr(false, 3), 0x1122334455667788, rbase(seed, "rho", 1), bytes32(seed, "rs", 1));
    let ovk = k.r.ext.ovk;
    let m = memo(4).unwrap();
    let base = honest(&n, &m, Some(&ovk), cv(seed, 1));
    let masks: Vec<u8> = x.q(vec![1, 0x80], vec![1, 2, 4, 8, 16, 32, 64, 128, 255]);
    x.bound(format!("every byte of all ciphertexts, of epk, cmx, cv, nf and of both keys changed with {} masks and swapped with another action's; all 256 plaintext versions; all combinations of 2-4 versions x 4 ephemeral secrets x 3 diversifiers (2 bases) x 3 commitments x 2 encryption keys x 2 nullifiers x 2 value changes with 5 x 6 outgoing plaintexts; edge ephemeral keys; edge and wrong incoming and outgoing keys; full, compact and outgoing decryption each compared with the reference", masks.len()));
    x.assume("ChaCha20-Poly1305, BLAKE2b and pasta arithmetic come from the same crates as in the implementation");
    let fields = [("enc", 580usize), ("out", 80), ("epk", 32), ("cmx", 32), ("cv", 32), ("nf", 32), ("ivk", 64), ("ovk", 32)];
    x.space("alterations", &|c: &mut Chooser| {
        let (f, len) = *c.of("field", &fields);
        let i = c.pick("byte", len);
        let mask = *c.of("mask", &masks);
        let mut p = base.clone();
        let mut o = ovk;
        let mut ivk = k.r.ext.ivk_bytes();
        match f {
            "enc" => p.enc[i] ^= mask,
            "out" => p.out[i] ^= mask,
            "epk" => p.epk[i] ^= mask,
            "cmx" => p.cmx[i] ^= mask,
            "cv" => p.cv[i] ^= mask,
            "nf" => p.nf[i] ^= mask,
            "ivk" => ivk[i] ^= mask,
            _ => o[i] ^= mask,
        }
        let what = format!("{f} byte {i} ^ {mask}");
        c.state(&what);
        c.compared_n(3);
        let Some(a) = action(&p) else {
            c.outcome(format!("{f}: does not parse"));
            return Ok(());
        };
        let Some(kb) = refm::base(ivk[32..].try_into().unwrap()) else {
            ensure!(bool::from(IncomingViewingKey::from_bytes(&ivk).is_none()), "{what}: incoming key parsed");
            c.outcome("ivk: does not parse");
            return Ok(());
        };
        let sk = refm::ScopeKeys { rivk: Scalar::zero(), dk: ivk[..32].try_into().unwrap(), ivk: kb, ovk };
        let d = check_ivk(&a, &p, &sk, &what)?;
        let dc = refm::decrypt_compact(&p, &kb).is_some();
        let r = check_ovk(&a, &p, &o, &what)?;
        // A changed dk is no change to decryption; everything else must be noticed where bound.
        let untouched = f == "ivk" && i < 32;
        eq!(d, untouched || ["out", "cv", "ovk"].contains(&f), "{what}: incoming decryption");
        eq!(r, f == "ivk", "{what}: outgoing recovery");
        c.outcome(format!("{f}: full {d} compact {dc} outgoing {r}"));
        Ok(())
    });
    x.space("versions", &|c: &mut Chooser| {
        let lead = c.pick("version", 256) as u8;
        let internal = c.flag("internal");
        let n = rnote(k.addr(internal, 9), 5, rbase(seed, "rho", 2), bytes32(seed, "rs", 2));
        let mut cr = Craft::of(&n, m, ovk, cv(seed, 2));
        cr.lead = lead;
        let p = cr.make();
        let a = action(&p).ok_or("action")?;
        let what = format!("version {lead}");
        eq!(check_ivk(&a, &p, k.r.scope(internal), &what)?, lead == 2, "{what}");
        eq!(check_ovk(&a, &p, &ovk, &what)?, lead == 2, "{what}, outgoing");
        c.state(format!("{lead} {internal}"));
        c.compared_n(5);
        Ok(())
    });
    // Plaintexts, properly encrypted, with one bit or one encoding different from the honest one.
    let modulus = |m: [u8; 32]| {
        let mut m = m;
        m[0] += 1;
        m
    };
    let (rq, rp) = (modulus((-Scalar::one()).to_repr()), modulus((-Base::one()).to_repr()));
    // b + k m, if that fits below 2^bits.
    let plus = |b: &[u8; 32], m: &[u8; 32], k: usize, bits: usize| -> Option<[u8; 32]> {
        let mut r = *b;
        for _ in 0..k {
            let mut carry = 0u16;
            for i in 0..32 {
                let t = r[i] as u16 + m[i] as u16 + carry;
                r[i] = t as u8;
                carry = t >> 8;
            }
            if carry > 0 || (bits == 255 && r[31] & 0x80 != 0) {
                return None;
            }
        }
        Some(r)
    };
    let notes = x.q(3u64, 24);
    x.bound(format!("plaintexts of {notes} notes properly encrypted with every single bit of the outgoing plaintext and of the note's part of the note plaintext inverted, and with esk, pk_d and epk in every other encoding modulo the field orders"));
    x.space("plaintexts", &|c: &mut Chooser| {
        let i = c.pick("note", notes as usize) as u64;
        let internal = c.flag("internal");
        let n = rnote(k.addr(internal, 9 + i as u128), 5 + i, rbase(seed, "rho", 20 + i), bytes32(seed, "rs", 20 + i));
        let mut cr = Craft::of(&n, m, ovk, cv(seed, 2));
        let kind = c.pick("kind", 6);
        let mut honest = false;
        let what = match kind {
            0 => {
                let b = c.pick("bit", 512);
                let part = if b < 256 { &mut cr.out_pk } else { &mut cr.out_esk };
                part[b % 256 / 8] ^= 1 << (b % 8);
                format!("outgoing plaintext bit {b}")
            }
            1 => {
                let b = c.pick("bit", 51 * 8);
                let (y, m) = (b / 8, 1u8 << (b % 8));
                match y {
                    0..=10 => cr.d[y] ^= m,
                    11..=18 => cr.v ^= (m as u64) << (8 * (y - 11)),
                    _ => cr.rseed[y - 19] ^= m,
                }
                format!("note plaintext bit {}", b + 8)
            }
            2 => {
                let j = c.pick("multiple", 4);
                match plus(&cr.out_esk, &rq, j, 256) {
                    Some(e) => cr.out_esk = e,
                    None => return Ok(()),
                }
                honest = j == 0;
                format!("esk + {j} r")
            }
            3 => {
                let sign = cr.out_pk[31] & 0x80;
                let mut b = cr.out_pk;
                b[31] &= 0x7f;
                let Some(mut b) = plus(&b, &rp, 1, 255) else { return Ok(()) };
                b[31] |= sign;
                cr.out_pk = b;
                "pk_d's x-coordinate plus p".to_string()
            }
            4 => {
                let mut b = (refm::g_d(&cr.d) * cr.esk).to_bytes();
                let sign = b[31] & 0x80;
                b[31] &= 0x7f;
                let Some(mut b) = plus(&b, &rp, 1, 255) else { return Ok(()) };
                b[31] |= sign;
                cr.epk = Some(b);
                "epk's x-coordinate plus p".to_string()
            }
            _ => {
                let mut e = cr.out_esk;
                match c.pick("form", 3) {
                    0 => e.reverse(),
                    1 => e[31] |= 0x80,
                    _ => e[31] |= 0x40,
                }
                cr.out_esk = e;
                format!("esk as {}", hx(e))
            }
        };
        let p = cr.make();
        let a = action(&p).ok_or("action")?;
        let d = check_ivk(&a, &p, k.r.scope(internal), &what)?;
        let r = check_ovk(&a, &p, &ovk, &what)?;
        eq!(r, honest, "{what}: outgoing recovery");
        eq!(d, ![1, 4].contains(&kind), "{what}: incoming decryption");
        c.state(format!("{i} {internal} {what}"));
        c.outcome(format!("full {d} outgoing {r}"));
        c.compared_n(5);
        Ok(())
    });
    let versions: &[u8] = x.q(&[2u8, 1], &[2u8, 1, 3, 0]);
    let d2: [u8; 11] = k.addr(false, 4)[..11].try_into().unwrap();
    let mut q = (-Scalar::one()).to_repr();
    q[0] += 1; // the group order, non-canonical
    x.space("combinations", &|c: &mut Chooser| {
        let mut cr = Craft::of(&n, m, ovk, cv(seed, 3));
        cr.lead = *c.of("version", versions);
        let esk = c.pick("esk", 4);
        let di = c.pick("diversifier", 3);
        let gd = c.flag("base of the other diversifier");
        let other_nf = c.flag("another nullifier");
        let alt = c.flag("another value");
        let refit = c.pick("commitment refitted", 3);
        let toenc = c.pick("encrypted to", 2);
        if di > 0 {
            cr.d = if di == 1 { d2 } else { bytes32(seed, "div", 1)[..11].try_into().unwrap() };
        }
        if alt {
            cr.v ^= 1 << 63;
        }
        if other_nf {
            cr.nf = rbase(seed, "nf", 5).to_repr();
        }
        cr.base_d = if gd { d2 } else { cr.d };
        // The esk the note determines depends on rho and rseed.
        let derived = RNote { addr: n.addr, v: 0, rho: refm::base(&cr.nf).unwrap(), rseed: cr.rseed }.esk();
        cr.esk = [derived, derived + Scalar::one(), Scalar::one(), -derived][esk];
        let pk_d = k.r.ext.pk_d(&cr.d);
        cr.pk_d = refm::pt(&if toenc == 0 { k.r.ext.pk_d(&cr.base_d) } else { k.r.int.pk_d(&cr.base_d) }).unwrap();
        match refit {
            0 => {}
            1 => cr.commit(&pk_d),
            _ => {
                let pk = k.r.int.pk_d(&cr.d);
                cr.commit(&pk)
            }
        }
        let enc_pk = cr.pk_d.to_bytes();
        let op = c.pick("outgoing pk_d", 5);
        cr.out_pk = match op {
            0 => enc_pk,
            1 => pk_d,
            2 => [0; 32],
            3 => [0xff; 32],
            _ => (-cr.pk_d).to_bytes(),
        };
        let oe = c.pick("outgoing esk", 6);
        cr.out_esk = match oe {
            0 => cr.esk.to_repr(),
            1 => derived.to_repr(),
            2 => [0; 32],
            3 => q,
            4 => [0xff; 32],
            _ => (-cr.esk).to_repr(),
        };
        let p = cr.make();
        let a = action(&p).ok_or("action")?;
        let what = format!("{} esk {esk} d {di} base {gd} nf {other_nf} value {alt} refit {refit} to {toenc} out {op} {oe}", cr.lead);
        let d = check_ivk(&a, &p, &k.r.ext, &what)?;
        let di2 = check_ivk(&a, &p, &k.r.int, &what)?;
        let r = check_ovk(&a, &p, &ovk, &what)?;
        c.state(&what);
        c.outcome(format!("full {d} {di2} outgoing {r}"));
        c.compared_n(8);
        Ok(())
    });
    let oc = x.outcomes("combinations");
    if !x.has_violation() && !x.is_replay() {
        x.aggregate("combinations", if oc.len() >= 4 { Ok(()) } else { Err(format!("too few outcomes reached: {oc:?}")) });
    }
    // Ephemeral keys off the curve, of order one, negated, unrelated; with ciphertexts that fit them.
    let mut offcurve = [5u8; 32];
    while refm::pt(&offcurve).is_some() {
        offcurve[0] += 1;
    }
    let epks: Vec<[u8; 32]> = vec![
        [0; 32],
        {
            let mut z = [0; 32];
            z[31] = 0x80;
            z
        },
        [0xff; 32],
        offcurve,
        (-refm::pt(&base.epk).unwrap()).to_bytes(),
        refm::Point::generator().to_bytes(),
        refm::spend_auth_g().to_bytes(),
        (-Base::one()).to_repr(),
        {
            let mut z = (-Base::one()).to_repr();
            z[0] += 1;
            z
        },
        refm::g_d(&n.d()).to_bytes(),
    ];
    x.space("ephemeral-keys", &|c: &mut Chooser| {
        let e = *c.of("epk", &epks);
        let shared = c.pick("shared secret", 4);
        let mut cr = Craft::of(&n, m, ovk, cv(seed, 4));
        cr.epk = Some(e);
        let ivks = refm::base_as_scalar(&k.r.ext.ivk);
        match shared {
            0 => {}
            1 => cr.pk_d = refm::Point::identity(),
            2 => {
                // What a receiver that did parse the key would compute.
                let Some(pt) = refm::pt(&e) else {
                    c.state("unparseable");
                    return Ok(());
                };
                cr.pk_d = pt * ivks * cr.esk.invert().unwrap();
            }
            _ => {
                // A zero outgoing secret agrees on the identity.
                cr.out_esk = [0; 32];
                cr.pk_d = refm::Point::identity();
            }
        }
        let p = cr.make();
        let a = action(&p).ok_or("action")?;
        let what = format!("epk {} secret {shared}", hx(e));
        ensure!(!check_ivk(&a, &p, &k.r.ext, &what)?, "{what}: decrypted with an incoming key");
        ensure!(!check_ovk(&a, &p, &ovk, &what)?, "{what}: recovered with an outgoing key");
        c.state(&what);
        c.compared_n(5);
        Ok(())
    });
    // A diversifier whose hash needs the fallback has never been found; edge diversifiers and seeds.
    let edge_d: Vec<[u8; 11]> = (0..12u8).map(|i| if i == 0 { [0; 11] } else if i == 1 { [0xff; 11] } else { let mut d = [0; 11]; d[i as usize - 2] = 0x80 >> (i - 2); d }).collect();
    let seeds: Vec<[u8; 32]> = (0..20u8).map(|i| match i { 0 => [0; 32], 1 => [0xff; 32], _ => bytes32(seed, "edge rseed", i as u64) }).collect();
    x.space("edge-notes", &|c: &mut Chooser| {
        let d = *c.of("diversifier", &edge_d);
        let internal = c.flag("internal");
        let rs = *c.of("seed", &seeds);
        let r = *c.of("rho", &[Base::zero(), Base::one(), -Base::one()]);
        let v = *c.of("value", &[0, 1, u64::MAX]);
        let nn = rnote(k.r.scope(internal).address(&d), v, r, rs);
        let p = honest(&nn, &m, Some(&ovk), cv(seed, 5));
        let a = action(&p).ok_or("action")?;
        let what = format!("{} {internal} {} {v}", hx(d), hx(rs));
        for int in [false, true] {
            eq!(check_ivk(&a, &p, k.r.scope(int), &what)?, int == internal, "{what}: incoming {int}");
        }
        ensure!(check_ovk(&a, &p, &ovk, &what)?, "{what}: outgoing");
        c.state(hx(p.cmx));
        c.compared_n(8);
        Ok(())
    });
    // Keys against actions: every pairing of edge keys and owners.
    let ikeys: Vec<refm::ScopeKeys> = {
        let mut v: Vec<_> = keys.iter().flat_map(|k| [k.r.ext.clone(), k.r.int.clone()]).collect();
        for b in [Base::one(), -Base::one(), Base::from(2), rbase(seed, "ivk", 0)] {
            v.push(refm::ScopeKeys { rivk: Scalar::zero(), dk: [3; 32], ivk: b, ovk: [0; 32] });
        }
        v
    };
    let okeys: Vec<[u8; 32]> = {
        let mut v: Vec<_> = keys.iter().flat_map(|k| [k.r.ext.ovk, k.r.int.ovk]).collect();
        v.push([0; 32]);
        v.push([0xff; 32]);
        v
    };
    x.space("keys", &|c: &mut Chooser| {
        let to = c.pick("recipient", ikeys.len());
        let by = c.pick("sender", okeys.len());
        let i = c.pick("incoming key", ikeys.len());
        let o = c.pick("outgoing key", okeys.len());
        let d = edge_d[to % edge_d.len()];
        let nn = rnote(ikeys[to].address(&d), 3, rbase(seed, "krho", 0), bytes32(seed, "krs", 0));
        let p = honest(&nn, &m, Some(&okeys[by]), cv(seed, 6));
        let a = action(&p).ok_or("action")?;
        let what = format!("to {to} by {by} read {i} {o}");
        eq!(check_ivk(&a, &p, &ikeys[i], &what)?, i == to, "{what}: incoming");
        eq!(check_ovk(&a, &p, &okeys[o], &what)?, o == by, "{what}: outgoing");
        c.state(&what);
        c.compared_n(5);
        Ok(())
    });
}

// --------------------------------------------------------------------------------- C13

pub fn c13(x: &mut Ctx) {
    let seed = x.seed;
    let keys: Vec<Key> = (0..2).map(|i| Key::new(seed, i)).collect();
    // Incoming keys: four real ones, a twin with another diversifier key, and edge ones.
    let mut ik: Vec<refm::ScopeKeys> = keys.iter().flat_map(|k| [k.r.ext.clone(), k.r.int.clone()]).collect();
    ik.push(refm::ScopeKeys { rivk: Scalar::zero(), dk: [9; 32], ivk: keys[0].r.ext.ivk, ovk: [0; 32] });
    ik.push(refm::ScopeKeys { rivk: Scalar::zero(), dk: [0; 32], ivk: -Base::one(), ovk: [0; 32] });
    let ok: Vec<[u8; 32]> = vec![keys[0].r.ext.ovk, keys[0].r.int.ovk, keys[1].r.ext.ovk, [0; 32], [0xff; 32]];
    let kinds = 8usize;
    let (amax, kmax) = (x.q(3usize, 4), 3usize);
    let positions = amax;
    x.bound(format!("every sequence of up to {amax} actions over {kinds} kinds (to four keys, altered ciphertext, identity and off-curve ephemeral key, random bytes) with every list of up to {kmax} of 6 incoming and 5 outgoing keys, repeats and a twin key included (together at most {} long in total); indices 0..n+1 and extremes; up to {} keys, and actions, with a fitting one at every position", x.q(5, 6), x.q(65, 200)));
    x.assume("C12 justifies single decryptions; the reference table is computed per action and key");
    let mk = |kind: usize, pos: usize| -> Pub {
        let id = (kind * 16 + pos) as u64;
        let rho = rbase(seed, "rho", id);
        let rs = bytes32(seed, "rs", id);
        let m = memo_bytes(&memo(1 + (kind + pos) % 6));
        let (key, int) = [(0, false), (0, true), (1, false), (1, true)][kind % 4];
        let n = rnote(keys[key].addr(int, id as u128), id, rho, rs);
        let mut p = honest(&n, &m, (kind != 3).then(|| &ok[kind % 3]), cv(seed, id));
        match kind {
            4 => p.enc[579] ^= 1,
            5 => p.epk = [0; 32],
            6 => p.epk = [0xff; 32],
            7 => {
                p.cmx = rbase(seed, "cmx", id).to_repr();
                p.epk = (refm::spend_auth_g() * rscalar(seed, "e", id)).to_bytes()
            }
            _ => {}
        }
        p
    };
    struct Entry {
        p: Pub,
        full: Vec<Option<String>>,
        comp: Vec<Option<String>>,
        out: Vec<Option<String>>,
    }
    let table: Vec<Vec<Entry>> = (0..kinds)
        .map(|kind| {
            (0..positions)
                .map(|pos| {
                    let p = mk(kind, pos);
                    Entry {
                        full: ik.iter().map(|k| refm::decrypt_ivk(&p, &k.ivk).map(|p| showm(&p))).collect(),
                        comp: ik.iter().map(|k| refm::decrypt_compact(&p, &k.ivk).map(|p| show(&p))).collect(),
                        out: ok.iter().map(|k| refm::decrypt_ovk(&p, k).map(|p| showm(&p))).collect(),
                        p,
                    }
                })
                .collect()
        })
        .collect();
    let bundle = |sel: &[usize]| -> Result<Bundle<NoAuth, i64>, String> {
        let acts: Option<Vec<_>> = sel.iter().enumerate().map(|(pos, kind)| action(&table[*kind][pos].p)).collect();
        Ok(Bundle::from_parts(
            nonempty::NonEmpty::from_vec(acts.ok_or("action does not parse")?).unwrap(),
            flags(true, true),
            0,
            anchor(&Base::zero()),
            NoAuth,
        ))
    };
    let total = x.q(5, 6);
    x.space("incoming", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", amax);
        let nk = c.pick("keys", kmax.min(total - n) + 1);
        let sel: Vec<usize> = (0..n).map(|_| c.pick("kind", kinds)).collect();
        let kl: Vec<usize> = (0..nk).map(|_| c.pick("key", ik.len())).collect();
        let what = format!("actions {sel:?}, keys {kl:?}");
        let b = bundle(&sel)?;
        let ivks: Vec<_> = kl.iter().map(|i| ivk_of(&ik[*i])).collect();
        let mut want = vec![];
        for (a, kind) in sel.iter().enumerate() {
            if let Some(j) = kl.iter().position(|k| table[*kind][a].full[*k].is_some()) {
                want.push((a, hx(ik[kl[j]].ivk_bytes()), table[*kind][a].full[kl[j]].clone().unwrap()));
            }
        }
        let mut got = vec![];
        for (a, k, n, ad, m) in b.decrypt_outputs_with_keys(&ivks) {
            got.push((a, hx(k.to_bytes()), full(Some((n, ad, m)))?.unwrap()));
        }
        eq!(got, want, "{what}: scanning");
        // Batched trial decryption.
        let prep: Vec<_> = ivks.iter().map(PreparedIncomingViewingKey::new).collect();
        let outs: Vec<_> = b.actions().iter().map(|a| (OrchardDomain::for_action(a), a.clone())).collect();
        let r = batch::try_note_decryption(&prep, &outs);
        eq!(r.len(), n, "{what}: batch length");
        for (a, r) in r.into_iter().enumerate() {
            let w = kl.iter().position(|k| table[sel[a]][a].full[*k].is_some());
            let (g, gi) = match r {
                Some((t, i)) => (full(Some(t))?, Some(i)),
                None => (None, None),
            };
            eq!(gi, w, "{what}: key index in the batch for action {a}");
            eq!(g, w.and_then(|j| table[sel[a]][a].full[kl[j]].clone()), "{what}: batch result for action {a}");
        }
        let outs: Vec<_> = b
            .actions()
            .iter()
            .map(|a| {
                let ca = CompactAction::from(a);
                (OrchardDomain::for_compact_action(&ca), ca)
            })
            .collect();
        let r = batch::try_compact_note_decryption(&prep, &outs);
        eq!(r.len(), n, "{what}: compact batch length");
        for (a, r) in r.into_iter().enumerate() {
            let w = kl.iter().position(|k| table[sel[a]][a].comp[*k].is_some());
            let (g, gi) = match r {
                Some((t, i)) => (compact(Some(t))?, Some(i)),
                None => (None, None),
            };
            eq!(gi, w, "{what}: key index in the compact batch for action {a}");
            eq!(g, w.and_then(|j| table[sel[a]][a].comp[kl[j]].clone()), "{what}: compact batch result for action {a}");
        }
        c.outcome(format!("{} found", want.len()));
        c.state(&what);
        c.compared_n(1 + 2 * n as u64);
        Ok(())
    });
    x.space("outgoing", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", amax);
        let nk = c.pick("keys", kmax.min(total - n) + 1);
        let sel: Vec<usize> = (0..n).map(|_| c.pick("kind", kinds)).collect();
        let kl: Vec<usize> = (0..nk).map(|_| c.pick("key", ok.len())).collect();
        let what = format!("actions {sel:?}, outgoing keys {kl:?}");
        let b = bundle(&sel)?;
        let ovks: Vec<_> = kl.iter().map(|i| OutgoingViewingKey::from(ok[*i])).collect();
        let mut want = vec![];
        for (a, kind) in sel.iter().enumerate() {
            if let Some(j) = kl.iter().position(|k| table[*kind][a].out[*k].is_some()) {
                want.push((a, hx(ok[kl[j]]), table[*kind][a].out[kl[j]].clone().unwrap()));
            }
        }
        let mut got = vec![];
        for (a, k, n, ad, m) in b.recover_outputs_with_ovks(&ovks) {
            let kb: [u8; 32] = *k.as_ref();
            got.push((a, hx(kb), full(Some((n, ad, m)))?.unwrap()));
        }
        eq!(got, want, "{what}: recovery");
        c.outcome(format!("{} found", want.len()));
        c.state(&what);
        c.compared();
        Ok(())
    });
    // Long lists: one key among many that fit nothing, one action among many for other keys.
    let lens: Vec<usize> = x.q(vec![4, 8, 9, 16, 17, 33, 65], (4..=40).chain([63, 64, 65, 66, 127, 128, 129, 200]).collect());
    // (length, position) of far longer ones.
    let far: Vec<(usize, usize)> = x.q(vec![101usize, 129, 257, 300, 1025], vec![101, 129, 201, 257, 300, 513, 1001, 1025, 3000]).into_iter().flat_map(|n| [n - 1, n / 2].map(|p| (n, p))).collect();
    let pick_len = |c: &mut Chooser, what: &str| {
        let i = c.pick(what, lens.len() + far.len());
        match lens.get(i) {
            Some(n) => (*n, c.pick("position", *n)),
            None => far[i - lens.len()],
        }
    };
    x.bound(format!("lists and bundles of these lengths with the fitting one here: {far:?}"));
    let fill: Vec<(IncomingViewingKey, OutgoingViewingKey)> = (0..x.q(1025u64, 3000))
        .map(|i| {
            let s = refm::ScopeKeys { rivk: Scalar::zero(), dk: [1; 32], ivk: rbase(seed, "fill", i), ovk: bytes32(seed, "fillo", i) };
            (ivk_of(&s), OutgoingViewingKey::from(s.ovk))
        })
        .collect();
    x.space("many keys", &|c: &mut Chooser| {
        let (nk, at) = pick_len(c, "keys");
        let kind = c.pick("kind", 2);
        let outgoing = c.flag("outgoing");
        let what = format!("{nk} keys, fitting one at {at}, kind {kind}, outgoing {outgoing}");
        let sel = [kind, 5, kind];
        let b = bundle(&sel)?;
        let want = |f: &dyn Fn(&Entry) -> Option<String>| -> Vec<(usize, String)> { sel.iter().enumerate().filter_map(|(a, k)| f(&table[*k][a]).map(|t| (a, t))).collect() };
        if outgoing {
            let ovks: Vec<_> = (0..nk).map(|i| if i == at { OutgoingViewingKey::from(ok[kind]) } else { fill[i].1.clone() }).collect();
            let mut got = vec![];
            for (a, k, n, ad, m) in b.recover_outputs_with_ovks(&ovks) {
                eq!(hx(k.as_ref()), hx(ok[kind]), "{what}: key");
                got.push((a, full(Some((n, ad, m)))?.unwrap()));
            }
            eq!(got, want(&|e| e.out[kind].clone()), "{what}: recovery");
        } else {
            let ivks: Vec<_> = (0..nk).map(|i| if i == at { ivk_of(&ik[kind]) } else { fill[i].0.clone() }).collect();
            let mut got = vec![];
            for (a, k, n, ad, m) in b.decrypt_outputs_with_keys(&ivks) {
                eq!(hx(k.to_bytes()), hx(ik[kind].ivk_bytes()), "{what}: key");
                got.push((a, full(Some((n, ad, m)))?.unwrap()));
            }
            eq!(got, want(&|e| e.full[kind].clone()), "{what}: scanning");
        }
        c.state(&what);
        c.compared();
        Ok(())
    });
    // Repeated, and many, actions.
    let mine = &table[0][0];
    let others: Vec<Pub> = (0..4).map(|i| mk(4 + i, 9)).collect();
    x.space("many actions", &|c: &mut Chooser| {
        let (n, at) = pick_len(c, "actions");
        let twice = c.flag("also first");
        let what = format!("{n} actions, fitting one at {at}, also first: {twice}");
        let hit = |i: usize| i == at || (twice && i == 0);
        let acts: Option<Vec<_>> = (0..n).map(|i| action(if hit(i) { &mine.p } else { &others[i % 4] })).collect();
        let b: Bundle<NoAuth, i64> = Bundle::from_parts(nonempty::NonEmpty::from_vec(acts.ok_or("action does not parse")?).unwrap(), flags(true, true), 0, anchor(&Base::zero()), NoAuth);
        let want: Vec<usize> = (0..n).filter(|i| hit(*i)).collect();
        let ivks = [ivk_of(&ik[2]), ivk_of(&ik[0])];
        let mut got = vec![];
        for (a, _, n, ad, m) in b.decrypt_outputs_with_keys(&ivks) {
            eq!(full(Some((n, ad, m)))?, mine.full[0], "{what}: note");
            got.push(a);
        }
        eq!(got, want, "{what}: scanning");
        let got: Vec<usize> = b.recover_outputs_with_ovks(&[OutgoingViewingKey::from(ok[0])]).into_iter().map(|t| t.0).collect();
        eq!(got, want, "{what}: recovery");
        eq!(b.decrypt_output_with_key(at, &ivks[1]).is_some(), true, "{what}: single decryption");
        eq!(b.recover_output_with_ovk(at, &OutgoingViewingKey::from(ok[0])).is_some(), true, "{what}: single recovery");
        let prep: Vec<_> = ivks.iter().map(PreparedIncomingViewingKey::new).collect();
        let outs: Vec<_> = b.actions().iter().map(|a| (OrchardDomain::for_action(a), a.clone())).collect();
        let got: Vec<usize> = batch::try_note_decryption(&prep, &outs).into_iter().enumerate().filter(|(_, r)| r.is_some()).map(|(i, _)| i).collect();
        eq!(got, want, "{what}: batch");
        c.state(&what);
        c.compared_n(5);
        Ok(())
    });
    x.space("single", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 3);
        let sel: Vec<usize> = (0..n).map(|_| c.pick("kind", kinds)).collect();
        let b = bundle(&sel)?;
        let at = c.pick("index", n + 13);
        let far = [1 << 7, 1 << 8, (1 << 8) + 1, 1 << 16, (1 << 16) + n - 1, 1 << 31, 1 << 32, (1 << 32) + n - 1, 1 << 48, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
        let at = if at > n { far[at - n - 1] } else { at };
        let i = c.pick("key", ik.len() + ok.len());
        let what = format!("actions {sel:?}, index {at}, key {i}");
        let e = sel.get(at).map(|k| &table[*k][at]);
        if i < ik.len() {
            let got = full(b.decrypt_output_with_key(at, &ivk_of(&ik[i])))?;
            eq!(got, e.and_then(|e| e.full[i].clone()), "{what}: single decryption");
        } else {
            let i = i - ik.len();
            let got = full(b.recover_output_with_ovk(at, &OutgoingViewingKey::from(ok[i])))?;
            eq!(got, e.and_then(|e| e.out[i].clone()), "{what}: single recovery");
        }
        c.state(&what);
        c.compared();
        Ok(())
    });
}
