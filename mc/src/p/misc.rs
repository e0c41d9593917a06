//! C21 memory accounting, C25 messages and formatting.

use super::full::*;
use crate::alloc::owned;
use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm;
use crate::{ensure, eq};
use memuse::DynamicUsage;
use orchard::builder::{BuildError, Builder, OutputError, SpendError};
use orchard::bundle::{Authorized, BatchValidator};
use orchard::keys::{IncomingViewingKey, PreparedIncomingViewingKey, SpendValidatingKey, SpendingKey};
use orchard::note_encryption::{CompactAction, OrchardDomain};
use orchard::primitives::redpallas;
use orchard::value::{NoteValue, OverflowError};
use orchard::{Bundle, Proof};
use std::collections::BTreeMap;
use std::fmt::Debug;

fn with_capacity(len: usize, spare: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + spare);
    v.extend((0..len).map(|i| i as u8));
    v
}
/// The usage and its bounds are those of the heap memory that the value holds.
fn usage<T: DynamicUsage>(v: T, what: &str) -> Result<i64, String> {
    let got = v.dynamic_usage() as i64;
    let (lo, hi) = v.dynamic_usage_bounds();
    let want = owned(v);
    eq!(got, want, "{what}: reported memory use, and bytes held");
    ensure!(lo as i64 <= want && hi.map_or(true, |h| want <= h as i64), "{what}: {want} bytes are not within the bounds {lo}, {hi:?}");
    Ok(want)
}

pub fn c21(x: &mut Ctx) {
    let seed = x.seed;
    let counts: Vec<usize> = x.q(vec![1, 2, 3, 4, 5, 8, 9, 17, 33], (1..40).chain([63, 64, 65, 128, 129, 257, 600]).collect());
    let lens: Vec<usize> = x.q(vec![0, 1, 31, 2720, 4992], vec![0, 1, 7, 8, 31, 32, 33, 2719, 2720, 4992, 7264, 65536, 1 << 20]);
    x.bound(format!("bundles of {counts:?} actions x proofs of {lens:?} bytes with and without spare capacity x balances that hold heap memory or none; proofs, actions, encryption domains, prepared incoming keys at edges, and lists of each"));
    x.assume("the bytes a value holds are those that dropping it returns to the allocator");
    let key = Key::new(seed, 0);
    let action = |i: u64| {
        let mut a = super::commit::gen_action(seed, i % 10);
        a.enc[0] ^= i as u8;
        a
    };
    let pool: Vec<_> = (0..10).map(action).collect();
    let bundle = |n: usize, len: usize, spare: usize| -> Bundle<Authorized, i64> {
        let acts: Vec<_> = (0..n).map(|i| action_from(&pool[i % 10], redpallas::Signature::from([i as u8; 64])).unwrap()).collect();
        Bundle::from_parts(
            nonempty::NonEmpty::from_vec(acts).unwrap(),
            flags(n % 2 == 0, len % 2 == 0),
            -(n as i64),
            anchor(&rbase(seed, "anchor", n as u64)),
            Authorized::from_parts(Proof::new(with_capacity(len, spare)), redpallas::Signature::from([2; 64])),
        )
    };
    x.space("bundles", &|c: &mut Chooser| {
        let n = *c.of("actions", &counts);
        let len = *c.of("proof", &lens);
        let spare = *c.of("spare", &[0usize, 1, 1000]);
        let kind = c.pick("balance", 4);
        let what = format!("bundle of {n} actions, proof of {len} bytes (+{spare}), balance kind {kind}");
        let b = bundle(n, len, spare);
        let b = if c.flag("copied") { b.clone() } else { b };
        let r = match kind {
            0 => usage(b, &what)?,
            1 => usage(b.try_map_value_balance(|_| Ok::<_, ()>(0u8)).unwrap(), &what)?,
            2 => usage(b.try_map_value_balance(|_| Ok::<_, ()>(with_capacity(3, 40))).unwrap(), &what)?,
            _ => usage(b.try_map_value_balance(|_| Ok::<_, ()>(vec![with_capacity(3, 40), vec![], with_capacity(9, 0)])).unwrap(), &what)?,
        };
        c.state(format!("{what} {r}"));
        c.compared_n(2);
        Ok(())
    });
    let ivks: Vec<[u8; 64]> = [false, true]
        .iter()
        .map(|s| key.r.scope(*s).ivk_bytes())
        .chain([1u64, 2, 3].map(|k| [[7; 32], refm::Base::from(k).to_repr()].concat().try_into().unwrap()))
        .chain([[[7; 32], (-refm::Base::one()).to_repr()].concat().try_into().unwrap()])
        .collect();
    use ff::PrimeField;
    x.space("parts", &|c: &mut Chooser| {
        let n = *c.of("count", &[1usize, 2, 5, 16]);
        let spare = *c.of("spare", &[0usize, 3]);
        fn list<T>(n: usize, spare: usize, f: impl Fn(usize) -> T) -> Vec<T> {
            let mut v = Vec::with_capacity(n + spare);
            v.extend((0..n).map(f));
            v
        }
        let kind = c.pick("kind", 5);
        let what = format!("{n} (+{spare}) of kind {kind}");
        let r = match kind {
            0 => usage(list(n, spare, |i| action_from(&pool[i % 10], redpallas::Signature::from([1; 64])).unwrap()), &what)?,
            1 => usage(list(n, spare, |i| Proof::new(with_capacity(i * 100, i))), &what)?,
            2 => usage(list(n, spare, |i| PreparedIncomingViewingKey::new(&IncomingViewingKey::from_bytes(&ivks[i % ivks.len()]).unwrap())), &what)?,
            3 => usage(list(n, spare, |i| OrchardDomain::for_action(&action_from(&pool[i % 10], ()).unwrap())), &what)?,
            _ => usage(list(n, spare, |i| bundle(1 + i % 3, i, 0)), &what)?,
        };
        c.state(format!("{what} {r}"));
        c.compared_n(2);
        Ok(())
    });
    x.space("single", &|c: &mut Chooser| {
        let i = c.pick("key", ivks.len());
        let k = IncomingViewingKey::from_bytes(&ivks[i]).unwrap();
        let r = match c.pick("kind", 4) {
            0 => usage(k.prepare(), "prepared key")?,
            1 => usage(PreparedIncomingViewingKey::new(&k).clone(), "copy of a prepared key")?,
            2 => usage(action_from(&pool[i], redpallas::Signature::from([1; 64])).unwrap(), "action")?,
            _ => usage(OrchardDomain::for_compact_action(&CompactAction::from(&action_from(&pool[i], ()).unwrap())), "domain")?,
        };
        c.state(format!("{i} {r}"));
        c.compared_n(2);
        Ok(())
    });
}

/// What the message of an error has to name.
fn says(t: &str, kind: &str) -> Vec<&'static str> {
    match (t, kind) {
        (_, "SpendsDisabled" | "spends disabled") => vec!["spend"],
        (_, "OutputsDisabled" | "outputs disabled") => vec!["output"],
        (_, "AnchorMismatch") => vec!["anchor"],
        (_, "MissingSignatures" | "InvalidExternalSignature" | "DuplicateSignature") => vec!["signature"],
        (_, "Proof") => vec!["proof", "synthesi"],
        (_, "ValueSum") => vec!["value"],
        (_, "BundleTypeNotSatisfiable") => vec!["bundle type"],
        (_, "FvkMismatch") => vec!["key"],
        (_, "InvalidSpendingKey") => vec!["key"],
        (_, "InvalidChildIndex") => vec!["index"],
        _ => vec![],
    }
}

pub fn c25(x: &mut Ctx) {
    let seed = x.seed;
    x.bound("every error kind of the builder, of outputs and spends, of value arithmetic and of key derivation, compared pairwise within its type; formatting (plain, alternate) of every public kind of value at edges and of bundles of 1 to 4 actions in every authorization state");
    x.assume("wordings are free: they have to be there, be printable, name what was violated, and differ between the kinds of one error type");
    let plonk = || halo2_proofs::plonk::Error::Synthesis;
    // Every kind, with the message that a user sees.
    let types: BTreeMap<&str, Vec<(&str, String, String)>> = {
        fn show<E: std::fmt::Display + Debug>(n: &'static str, e: E) -> (&'static str, String, String) {
            (n, format!("{e}"), format!("{e:?}"))
        }
        BTreeMap::from([
            (
                "BuildError",
                vec![
                    show("SpendsDisabled", BuildError::SpendsDisabled),
                    show("OutputsDisabled", BuildError::OutputsDisabled),
                    show("AnchorMismatch", BuildError::AnchorMismatch),
                    show("MissingSignatures", BuildError::MissingSignatures),
                    show("Proof", BuildError::Proof(plonk())),
                    show("ValueSum", BuildError::ValueSum(OverflowError)),
                    show("InvalidExternalSignature", BuildError::InvalidExternalSignature),
                    show("DuplicateSignature", BuildError::DuplicateSignature),
                    show("BundleTypeNotSatisfiable", BuildError::BundleTypeNotSatisfiable),
                ],
            ),
            ("SpendError", vec![show("SpendsDisabled", SpendError::SpendsDisabled), show("AnchorMismatch", SpendError::AnchorMismatch), show("FvkMismatch", SpendError::FvkMismatch)]),
            ("adding", vec![show("spends disabled", SpendError::SpendsDisabled), show("outputs disabled", OutputError)]),
            ("OverflowError", vec![show("overflow", OverflowError)]),
            (
                "zip32::Error",
                vec![show("InvalidSpendingKey", orchard::zip32::Error::InvalidSpendingKey), show("InvalidChildIndex", SpendingKey::from_zip32_seed(&[1; 32], 1 << 31, zip32::AccountId::ZERO).err().unwrap())],
            ),
        ])
    };
    x.space("messages", &|c: &mut Chooser| {
        let names: Vec<_> = types.keys().collect();
        let t = names[c.pick("type", names.len())];
        let l = &types[t];
        let (a, b) = (c.pick("a", l.len()), c.pick("b", l.len()));
        let (a, b) = (&l[a], &l[b]);
        let words = says(t, a.0);
        ensure!(words.iter().all(|w| a.1.to_lowercase().contains(w)), "{t}::{} has the message {:?}, which does not name {words:?}", a.0, a.1);
        for s in [&a.1, &a.2] {
            ensure!(s.trim().len() >= 3 && !s.chars().any(|c| c.is_control()), "{t}::{} has the message {s:?}", a.0);
        }
        if a.0 != b.0 {
            ensure!(a.1 != b.1, "{t}: {} and {} have the same message {:?}", a.0, b.0, a.1);
            ensure!(a.2 != b.2, "{t}: {} and {} look the same: {}", a.0, b.0, a.2);
        }
        c.state(format!("{t} {} {}", a.0, b.0));
        c.compared_n(2);
        Ok(())
    });
    // The error of a failing operation converts to the error of the operation around it.
    x.space("conversions", &|c: &mut Chooser| {
        use halo2_proofs::plonk::Error as E;
        let causes: [fn() -> E; 8] = [
            || E::Synthesis,
            || E::InvalidInstances,
            || E::ConstraintSystemFailure,
            || E::BoundsFailure,
            || E::Opening,
            || E::InstanceTooLarge,
            || E::NotEnoughRowsAvailable { current_k: 7 },
            || E::Transcript(std::io::Error::new(std::io::ErrorKind::Other, "some cause")),
        ];
        let i = c.pick("error", 9);
        let (what, got, want) = match i {
            0 => ("overflow".into(), BuildError::from(OverflowError), format!("{:?}", BuildError::ValueSum(OverflowError))),
            i => (format!("{:?}", causes[i - 1]()), BuildError::from(causes[i - 1]()), format!("{:?}", BuildError::Proof(causes[i - 1]()))),
        };
        eq!(format!("{got:?}"), want, "conversion of {what}");
        ensure!(!format!("{got}").is_empty(), "no message after the conversion of {what}");
        c.state(what);
        c.compared();
        Ok(())
    });
    fn fmt<T: Debug>(v: &T) -> Result<usize, String> {
        let (a, b) = (format!("{v:?}"), format!("{v:#?}"));
        ensure!(!a.is_empty() && !b.is_empty(), "nothing is shown of a value");
        eq!(a, format!("{v:?}"), "the same value shown again");
        Ok(a.len())
    }
    let key = Key::new(seed, 0);
    let edges: Vec<[u8; 32]> = vec![[0; 32], { let mut b = [0; 32]; b[0] = 1; b }, { use ff::PrimeField; (-refm::Base::one()).to_repr() }, bytes32(seed, "x", 0).map(|b| b & 0x3f)];
    let mut raw = super::commit::gen_action(seed, 1);
    x.space("values", &|c: &mut Chooser| {
        let e = *c.of("value", &edges);
        let k = c.pick("kind", 16);
        let real = |s| key.fvk.to_ivk(scope(s));
        match k {
            0 => fmt(&orchard::note::Nullifier::from_bytes(&e).unwrap()),
            1 => fmt(&orchard::note::ExtractedNoteCommitment::from_bytes(&e).unwrap()),
            2 => fmt(&orchard::note::Rho::from_bytes(&e).unwrap()),
            3 => fmt(&orchard::Anchor::from_bytes(e).unwrap()),
            4 => fmt(&orchard::tree::MerkleHashOrchard::from_bytes(&e).unwrap()),
            5 => fmt(&key.fvk),
            6 => fmt(&real(true)).and(fmt(&real(false).prepare())),
            7 => fmt(&key.fvk.to_ovk(scope(e[0] == 1))),
            8 => fmt(&SpendValidatingKey::from(key.fvk.clone())).and(fmt(&key.ask)),
            9 => fmt(&address(&key.addr(e[0] == 1, e[1] as u128))),
            10 => fmt(&NoteValue::from_raw(u64::from_le_bytes(e[..8].try_into().unwrap()))),
            11 => fmt(&(NoteValue::from_raw(e[0] as u64) - NoteValue::from_raw(u64::from_le_bytes(e[8..16].try_into().unwrap())))),
            12 => fmt(&note(&rnote(key.addr(false, 0), e[0] as u64, rbase(seed, "fr", e[0] as u64), bytes32(seed, "fs", e[0] as u64)))),
            13 => fmt(&redpallas::Signature::<redpallas::SpendAuth>::from([e[0]; 64])),
            14 => fmt(&OrchardDomain::for_action(&action_from(&raw, ()).unwrap())).and(fmt(&CompactAction::from(&action_from(&raw, ()).unwrap()))),
            _ => fmt(&BatchValidator::new()).and(fmt(&orchard::bundle::Flags::from_byte(e[0] & 3).unwrap())),
        }?;
        c.state(format!("{k} {}", hx(e)));
        c.compared();
        Ok(())
    });
    raw.enc[0] = 0;
    let types = BT::all();
    x.space("bundles", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let n = 1 + c.pick("outputs-1", 4);
        let stage = c.pick("stage", 5);
        let mut b = Builder::new(t.real(), anchor(&rbase(seed, "fmt", 0)));
        if t.outputs() {
            for i in 0..n {
                b.add_output(None, address(&key.addr(false, i as u128)), NoteValue::from_raw(i as u64), None).map_err(|e| format!("{e:?}"))?;
            }
        }
        fmt(&b)?;
        c.state(format!("{t:?} {n} {stage}"));
        c.compared();
        if stage == 0 {
            return Ok(());
        }
        let Some((b, m)) = b.build::<i64>(DetRng::new(seed, "fmt", n as u64)).map_err(|e| format!("{e:?}"))? else { return Ok(()) };
        fmt(&m)?;
        match stage {
            1 => fmt(&b),
            2 => fmt(&b.prepare(DetRng::new(seed, "fp", 0), [1; 32])),
            3 => fmt(&b.map_authorization(
                &mut (),
                |_, _, _| redpallas::Signature::<redpallas::SpendAuth>::from([3; 64]),
                |_, _| Authorized::from_parts(Proof::new(with_capacity(n * 9, n)), redpallas::Signature::from([2; 64])),
            )),
            _ => b.actions().iter().try_fold(0, |s, a| Ok(s + fmt(a)? + fmt(a.rk())? + fmt(a.cv_net())? + fmt(a.encrypted_note())?)),
        }?;
        Ok(())
    });
}
