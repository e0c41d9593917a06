//! C05: the signing state machine, every operation sequence on the real bundle against a model.

use super::full::*;
use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm;
use crate::{ensure, eq};
use orchard::{
    builder::*,
    keys::SpendAuthorizingKey,
    primitives::redpallas::{Signature, SpendAuth},
    Bundle, Proof,
};

type Partial = Bundle<InProgress<Proof, PartiallyAuthorized>, i64>;

struct Fix {
    name: &'static str,
    un: Unsigned,
    /// Per action: the key index able to sign it, None for padding.
    who: Vec<Option<usize>>,
    sighash: [u8; 32],
    rks: Vec<[u8; 32]>,
    effects: String,
    /// External signatures to append: lists with a name.
    ext: Vec<(String, Vec<[u8; 64]>)>,
    keys: Vec<Key>,
}

fn effects<T: orchard::bundle::Authorization>(b: &Bundle<T, i64>) -> String {
    hx(refm::txid_digest(&ractions(b), b.flags().to_byte(), *b.value_balance(), &b.anchor().to_bytes()))
}
fn verify(rk: &[u8; 32], msg: &[u8], s: &[u8; 64]) -> bool {
    refm::redpallas_verify(&refm::spend_auth_g(), rk, msg, s)
}
fn sigs(b: &Partial) -> Vec<Option<[u8; 64]>> {
    b.actions()
        .iter()
        .map(|a| match a.authorization() {
            MaybeSigned::Signature(s) => Some(s.into()),
            _ => None,
        })
        .collect()
}
/// Signatures another party would make: sign a copy with every key.
fn external(un: &Unsigned, keys: &[Key], msg: [u8; 32], label: u64) -> Vec<[u8; 64]> {
    let mut b = un.clone().prepare(DetRng::new(label, "ext", 0), msg);
    for (i, k) in keys.iter().enumerate() {
        b = b.sign(DetRng::new(label, "ext", 1 + i as u64), &k.ask);
    }
    sigs(&b).into_iter().map(|s| s.unwrap_or([0; 64])).collect()
}

fn fixtures(seed: u64, thorough: bool) -> Result<Vec<Fix>, String> {
    let keys: Vec<Key> = (0..3).map(|i| Key::new(seed, i)).collect();
    let spec: Vec<(&'static str, Vec<usize>, usize, bool)> = {
        let mut v = vec![
            ("two keys", vec![0, 1], 1, false),
            ("one key twice", vec![0, 0], 0, false),
            ("one spend and padding", vec![0], 1, false),
            ("padding only", vec![], 1, false),
            ("three spends of two keys", vec![0, 1, 0], 1, false),
            ("repeated randomness", vec![0, 0], 2, true),
        ];
        if thorough {
            v.push(("four spends of two keys", vec![0, 1, 1, 0], 2, false));
            v.push(("three keys", vec![0, 1, 2], 4, false));
            v.push(("repeated randomness and another key", vec![0, 0, 1], 3, true));
        }
        v
    };
    both_keys();
    let mut out = vec![];
    for (fi, (name, spends, outs, repeat)) in spec.into_iter().enumerate() {
        let fi = fi as u64;
        let notes = spends
            .iter()
            .enumerate()
            .map(|(j, k)| {
                let id = fi * 16 + j as u64;
                let key = keys[*k].clone();
                let internal = j % 2 == 1;
                let n = rnote(key.addr(internal, id as u128), 5, rbase(seed, "rho", id), bytes32(seed, "rs", id));
                (key, internal, n)
            })
            .collect();
        let (root, owned) = plant(notes);
        let req = Req {
            bt: BT::Tx { s: true, o: true, req: true },
            root,
            spends: owned,
            outs: (0..outs).map(|j| (Key::new(seed, 9).addr(false, j as u128), 3, None, None)).collect(),
        };
        let (un, at) = if repeat { req.prove(ConstRng::new(0x5b), fi)? } else { req.prove(DetRng::new(seed, "c05", fi), fi)? };
        let sighash = [bytes32(seed, "sighash", fi), [0; 32], [0xff; 32]][fi as usize % 3];
        let who: Vec<_> = at.iter().map(|a| a.map(|i| spends[i])).collect();
        let rks: Vec<[u8; 32]> = un.actions().iter().map(|a| a.rk().into()).collect();
        let good = external(&un, &keys, sighash, fi);
        let good2 = external(&un, &keys, sighash, fi + 1000);
        let mut wrong = sighash;
        wrong[0] ^= 1;
        let bad = external(&un, &keys, wrong, fi);
        let real: Vec<usize> = (0..who.len()).filter(|i| who[*i].is_some()).collect();
        let mut ext: Vec<(String, Vec<[u8; 64]>)> = vec![("none".into(), vec![])];
        for i in &real {
            ext.push((format!("for action {i}"), vec![good[*i]]));
        }
        if let Some(i) = real.first() {
            ext.push((format!("for action {i}, another"), vec![good2[*i]]));
            ext.push((format!("for action {i}, twice"), vec![good[*i], good[*i]]));
            ext.push((format!("for action {i}, two different"), vec![good2[*i], good[*i]]));
            ext.push((format!("over another message for action {i}"), vec![bad[*i]]));
            let mut s = good[*i];
            s[32] ^= 1;
            ext.push((format!("scalar altered for action {i}"), vec![s]));
            let mut s = good[*i];
            s[..32].copy_from_slice(&good2[*i][..32]);
            ext.push((format!("mixed for action {i}"), vec![s]));
            ext.push((format!("valid then invalid for action {i}"), vec![good[*i], s]));
        }
        if real.len() > 1 {
            ext.push(("for all actions".into(), real.iter().map(|i| good[*i]).collect()));
            ext.push(("for all actions, reversed".into(), real.iter().rev().map(|i| good2[*i]).collect()));
        }
        // A signature valid for a padded spend, which is already signed.
        if let Some(i) = (0..who.len()).find(|i| who[*i].is_none()) {
            ext.push((format!("for padded action {i}"), vec![good[i]]));
        }
        ext.push(("zero".into(), vec![[0; 64]]));
        ext.push(("ones".into(), vec![[0xff; 64]]));
        let effects = effects(&un);
        out.push(Fix { name, un, who, sighash, rks, effects, ext, keys: keys.clone() });
    }
    Ok(out)
}

impl Fix {
    /// One appended list, on the model.
    fn model_append(&self, st: &mut [Option<[u8; 64]>], list: &[[u8; 64]]) -> &'static str {
        for s in list {
            let fits: Vec<usize> = (0..st.len()).filter(|i| st[*i].is_none() && verify(&self.rks[*i], &self.sighash, s)).collect();
            match fits.len() {
                0 => return "invalid",
                1 => st[fits[0]] = Some(*s),
                _ => return "duplicate",
            }
        }
        "ok"
    }
    fn check_final(&self, b: &Bundle<orchard::bundle::Authorized, i64>, st: &[Option<[u8; 64]>], what: &str) -> Result<(), String> {
        eq!(effects(b), self.effects, "{what}: effects of the final bundle");
        let r = RBundle::of(b);
        for (i, s) in r.sigs.iter().enumerate() {
            if let Some(w) = &st[i] {
                eq!(hx(s), hx(w), "{what}: signature of action {i} was replaced");
            }
        }
        ensure!(r.sigs_valid(&self.sighash), "{what}: a signature of the finalized bundle is invalid");
        Ok(())
    }
}

pub fn c05(x: &mut Ctx) {
    let seed = x.seed;
    let fix = match fixtures(seed, x.thorough()) {
        Ok(f) => f,
        Err(e) => {
            x.space("fixtures", &|c: &mut Chooser| {
                c.state("none");
                Err(format!("an honest bundle could not be built and proven: {e}"))
            });
            return;
        }
    };
    let depth = x.q(3, 4);
    let sizes: Vec<usize> = if x.thorough() { vec![5, 9, 17, 33, 65, 130] } else { vec![5, 9, 17, 33] };
    let big = x.q(7, 17);
    x.bound(format!("{} fixtures (one and several keys, repeated keys, padding, repeated randomness) with real proofs; every sequence of up to {depth} operations out of signing with 3 keys and {:?} external signature lists, then finalization; bundles of {sizes:?} spends with one key each: every spend signed, appended, and in every rotation of all signatures; signatures fitting up to 257 spends; a proven bundle of {big} spends with each key missing in turn; every list of up to 3 keys through apply_signatures; messages 0, ff and hashed", fix.len(), fix.iter().map(|f| f.ext.len()).collect::<Vec<_>>()));
    x.assume("C23 justifies the reference's signature verification; proofs are created once per fixture (interleavings with proving are C06's)");
    x.space("sequences", &|c: &mut Chooser| {
        let f = c.of("fixture", &fix);
        let (nk, ne) = (f.keys.len(), f.ext.len());
        let n = c.pick("operations", depth + 1);
        let mut b = f.un.clone().prepare(DetRng::new(seed, "prep", 1), f.sighash);
        let mut st = sigs(&b);
        for (i, w) in f.who.iter().enumerate() {
            eq!(st[i].is_some(), w.is_none(), "{}: action {i} signed after loading the message", f.name);
            if let Some(s) = &st[i] {
                ensure!(verify(&f.rks[i], &f.sighash, s), "{}: padding signature {i} is invalid", f.name);
            }
        }
        let mut hist = format!("{}:", f.name);
        for step in 0..n {
            let op = c.pick("operation", nk + ne);
            if op < nk {
                hist += &format!(" sign {op};");
                b = b.sign(DetRng::new(seed, "sign", step as u64 * 16 + op as u64), &f.keys[op].ask);
                let now = sigs(&b);
                for i in 0..st.len() {
                    match (&st[i], &now[i]) {
                        (Some(a), Some(s)) => eq!(hx(a), hx(s), "{hist} signature {i} replaced"),
                        (Some(_), None) => return Err(format!("{hist} signature {i} lost")),
                        (None, s) => {
                            eq!(s.is_some(), f.who[i] == Some(op), "{hist} action {i} signed");
                            if let Some(s) = s {
                                ensure!(verify(&f.rks[i], &f.sighash, s), "{hist} the signature made for action {i} is invalid");
                            }
                        }
                    }
                }
                st = now;
            } else {
                let (name, list) = &f.ext[op - nk];
                hist += &format!(" append {name};");
                let want = f.model_append(&mut st, list);
                let l: Vec<Signature<SpendAuth>> = list.iter().map(|s| Signature::from(*s)).collect();
                let r = b.append_signatures(&l);
                let got = match &r {
                    Ok(_) => "ok",
                    Err(BuildError::InvalidExternalSignature) => "invalid",
                    Err(BuildError::DuplicateSignature) => "duplicate",
                    Err(e) => return Err(format!("{hist} failed with {e:?}")),
                };
                eq!(got, want, "{hist} result");
                c.compared();
                match r {
                    Ok(x) => b = x,
                    Err(_) => {
                        c.outcome(want);
                        c.state(&hist);
                        return Ok(());
                    }
                }
                eq!(sigs(&b).iter().map(|s| s.map(hx)).collect::<Vec<_>>(), st.iter().map(|s| s.map(hx)).collect::<Vec<_>>(), "{hist} signatures");
            }
            eq!(effects(&b), f.effects, "{hist} effects");
            c.compared();
            c.state(format!("{} {:?}", f.name, st));
        }
        let full = st.iter().all(|s| s.is_some());
        match b.finalize() {
            Ok(b) => {
                ensure!(full, "{hist} finalized although signatures are missing");
                f.check_final(&b, &st, &hist)?;
                c.outcome("finalized");
            }
            Err(BuildError::MissingSignatures) => {
                ensure!(!full, "{hist} refused although every spend is signed");
                c.outcome("missing");
            }
            Err(e) => return Err(format!("{hist} finalization failed with {e:?}")),
        }
        c.compared();
        Ok(())
    });
    let dup = fix.iter().any(|f| (1..f.rks.len()).any(|i| f.rks[..i].contains(&f.rks[i])));
    x.assume(format!("a fixture with equal randomized keys was obtained from repeated randomness: {dup}"));
    let oc = x.outcomes("sequences");
    if !x.has_violation() && !x.is_replay() {
        let want = ["finalized", "invalid", "missing"];
        x.aggregate("sequences", if want.iter().all(|w| oc.contains_key(*w)) { Ok(()) } else { Err(format!("not every outcome was reached: {oc:?}")) });
    }
    // Larger bundles, not proven: one key per spend, and every position.
    type Draft = Bundle<InProgress<Unproven, PartiallyAuthorized>, i64>;
    let dsigs = |b: &Draft| -> Vec<Option<[u8; 64]>> {
        b.actions()
            .iter()
            .map(|a| match a.authorization() {
                MaybeSigned::Signature(s) => Some(s.into()),
                _ => None,
            })
            .collect()
    };
    struct Large {
        un: UnauthorizedBundle<i64>,
        keys: Vec<Key>,
        at: Vec<usize>,
        rks: Vec<[u8; 32]>,
        good: Vec<[u8; 64]>,
    }
    let msg = bytes32(seed, "large", 0);
    let mk = |n: usize| -> Result<Large, String> {
        let keys: Vec<Key> = (0..n as u64).map(|i| Key::new(seed, 500 + i)).collect();
        let (root, spends) = plant(keys.iter().enumerate().map(|(i, k)| (k.clone(), i % 2 == 1, rnote(k.addr(i % 2 == 1, i as u128), 5, rbase(seed, "lrho", i as u64), bytes32(seed, "lrs", i as u64)))).collect());
        let req = Req { bt: BT::Tx { s: true, o: true, req: false }, root, spends, outs: vec![] };
        let (un, meta) = req.build(DetRng::new(seed, "c05 large", n as u64))?.ok_or("no bundle")?;
        let at = (0..n).map(|i| meta.spend_action_index(i).ok_or("no index")).collect::<Result<Vec<_>, _>>()?;
        let rks = un.actions().iter().map(|a| a.rk().into()).collect();
        let mut b = un.clone().prepare(DetRng::new(seed, "ext", 0), msg);
        for k in &keys {
            b = b.sign(DetRng::new(seed, "ext", 1), &k.ask);
        }
        let good = dsigs(&b).into_iter().map(|s| s.unwrap_or([0; 64])).collect();
        Ok(Large { un, keys, at, rks, good })
    };
    let large: Vec<Result<Large, String>> = {
        use rayon::prelude::*;
        sizes.par_iter().map(|n| mk(*n)).collect()
    };
    x.space("large", &|c: &mut Chooser| {
        let l = c.of("bundle", &large).as_ref().map_err(|e| e.clone())?;
        let n = l.keys.len();
        let i = c.pick("spend", n);
        let op = c.pick("operation", 4);
        let what = format!("{n} spends, spend {i}, operation {op}");
        let start = l.un.clone().prepare(DetRng::new(seed, "prep", 1), msg);
        eq!(dsigs(&start).iter().filter(|s| s.is_some()).count(), 0, "{what}: signed after loading the message");
        let append = |b: Draft, list: &[[u8; 64]]| b.append_signatures(&list.iter().map(|s| Signature::from(*s)).collect::<Vec<_>>());
        let order: Vec<usize> = (0..n).map(|k| l.at[(k + i) % n]).collect();
        let (b, signed): (Draft, Vec<usize>) = match op {
            // The owner of one spend signs.
            0 => (start.sign(DetRng::new(seed, "one", i as u64), &l.keys[i].ask), vec![l.at[i]]),
            // One signature is appended.
            1 => (append(start, &[l.good[l.at[i]]]).map_err(|e| format!("{what}: {e:?}"))?, vec![l.at[i]]),
            // All are, this one first.
            2 => (append(start, &order.iter().map(|a| l.good[*a]).collect::<Vec<_>>()).map_err(|e| format!("{what}: {e:?}"))?, order.clone()),
            // All but the last are, and then one that fits nothing.
            _ => {
                let mut list: Vec<[u8; 64]> = order[..n - 1].iter().map(|a| l.good[*a]).collect();
                list.push(l.good[order[0]]);
                ensure!(matches!(append(start, &list), Err(BuildError::InvalidExternalSignature)), "{what}: a signature for a signed spend was accepted");
                c.state(&what);
                c.compared();
                return Ok(());
            }
        };
        for (a, s) in dsigs(&b).iter().enumerate() {
            eq!(s.is_some(), signed.contains(&a), "{what}: action {a} signed");
            if let Some(s) = s {
                ensure!(verify(&l.rks[a], &msg, s), "{what}: the signature of action {a} is invalid");
            }
        }
        c.state(&what);
        c.compared_n(n as u64);
        Ok(())
    });
    // Signatures that fit several spends.
    let many: Vec<usize> = if x.thorough() { vec![2, 3, 16, 17, 64, 255, 256, 257] } else { vec![2, 3, 17, 255, 256, 257] };
    x.space("several fit", &|c: &mut Chooser| {
        let n = *c.of("spends", &many);
        let key = Key::new(seed, 1);
        let (root, spends) = plant(vec![(key.clone(), false, rnote(key.addr(false, 1), 5, rbase(seed, "rho", 1), bytes32(seed, "rs", 1)))]);
        let req = Req { bt: BT::Tx { s: true, o: true, req: false }, root, spends: spends.iter().cycle().take(n).cloned().collect(), outs: vec![] };
        let (un, _) = req.build(ConstRng::new(0x5b))?.ok_or("no bundle")?;
        let rks: Vec<[u8; 32]> = un.actions().iter().map(|a| a.rk().into()).collect();
        let good = dsigs(&un.clone().prepare(DetRng::new(seed, "ext", 0), msg).sign(DetRng::new(seed, "ext", 1), &key.ask));
        let s = good.last().cloned().flatten().ok_or("not signed")?;
        let fits = rks.iter().filter(|rk| verify(rk, &msg, &s)).count();
        let r = un.prepare(DetRng::new(seed, "prep", 1), msg).append_signatures(&[Signature::from(s)]);
        let got = match r {
            Ok(_) => 1,
            Err(BuildError::InvalidExternalSignature) => 0,
            Err(BuildError::DuplicateSignature) => 2,
            Err(e) => return Err(format!("{e:?}")),
        };
        eq!(got, fits.min(2), "a signature valid for {fits} of {n} spends");
        c.outcome(format!("{fits} of {n}"));
        c.state(n.to_string());
        c.compared();
        Ok(())
    });
    // A larger proven bundle.
    x.space("large proven", &|c: &mut Chooser| {
        c.state("large");
        let keys: Vec<Key> = (0..big as u64).map(|i| Key::new(seed, 700 + i)).collect();
        let (root, spends) = plant(keys.iter().enumerate().map(|(i, k)| (k.clone(), false, rnote(k.addr(false, i as u128), 5, rbase(seed, "brho", i as u64), bytes32(seed, "brs", i as u64)))).collect());
        let req = Req { bt: BT::Tx { s: true, o: true, req: false }, root, spends, outs: vec![] };
        let (un, _) = req.prove(DetRng::new(seed, "c05 big", 0), 77)?;
        let fx = effects(&un);
        // Keys of nobody, and keys given again, before the last one that is needed.
        for (others, again) in [(1usize, 0usize), (40, 0), (0, 40), (300, 300)] {
            let l: Vec<SpendAuthorizingKey> = (0..big - 1)
                .map(|i| keys[i].ask.clone())
                .chain((0..others).map(|i| Key::new(seed, 900 + i as u64 % 9).ask.clone()))
                .chain((0..again).map(|i| keys[i % (big - 1)].ask.clone()))
                .chain([keys[big - 1].ask.clone()])
                .collect();
            let b = un.clone().apply_signatures(DetRng::new(seed, "apply", 1), msg, &l).map_err(|e| format!("{big} spends, their keys and {others} others, {again} again: {e:?}"))?;
            ensure!(RBundle::of(&b).sigs_valid(&msg), "{big} spends, {others} other keys: a signature is invalid");
            eq!(effects(&b), fx, "{big} spends: effects");
            c.compared();
        }
        for miss in 0..=big {
            let l: Vec<SpendAuthorizingKey> = (0..big).filter(|i| *i != miss).map(|i| keys[i].ask.clone()).collect();
            match un.clone().apply_signatures(DetRng::new(seed, "apply", miss as u64), msg, &l) {
                Ok(b) => {
                    ensure!(miss == big, "{big} spends: authorized without key {miss}");
                    eq!(effects(&b), fx, "{big} spends: effects");
                    ensure!(RBundle::of(&b).sigs_valid(&msg), "{big} spends: a signature is invalid");
                }
                Err(BuildError::MissingSignatures) => ensure!(miss < big, "{big} spends: refused although every key was given"),
                Err(e) => return Err(format!("{big} spends without key {miss}: {e:?}")),
            }
            c.compared();
        }
        Ok(())
    });
    x.space("apply", &|c: &mut Chooser| {
        let f = c.of("fixture", &fix);
        let n = c.pick("keys", 4);
        let ks: Vec<usize> = (0..n).map(|_| c.pick("key", f.keys.len())).collect();
        let l: Vec<SpendAuthorizingKey> = ks.iter().map(|i| f.keys[*i].ask.clone()).collect();
        let msg = *c.of("message", &[f.sighash, [1; 32]]);
        let full = f.who.iter().all(|w| w.map(|k| ks.contains(&k)).unwrap_or(true));
        let what = format!("{}, keys {ks:?}", f.name);
        match f.un.clone().apply_signatures(DetRng::new(seed, "apply", n as u64), msg, &l) {
            Ok(b) => {
                ensure!(full, "{what}: authorized although signatures are missing");
                eq!(effects(&b), f.effects, "{what}: effects");
                ensure!(RBundle::of(&b).sigs_valid(&msg), "{what}: a signature is invalid");
            }
            Err(BuildError::MissingSignatures) => ensure!(!full, "{what}: refused although every key was given"),
            Err(e) => return Err(format!("{what}: failed with {e:?}")),
        }
        c.outcome(full.to_string());
        c.state(format!("{what} {}", hx(msg)));
        c.compared();
        Ok(())
    });
}
