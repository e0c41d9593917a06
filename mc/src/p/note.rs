//! C19: note commitments and nullifiers.

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base, RNote, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use orchard::{builder::*, keys::*, note::*, value::NoteValue, Note};

fn cmx_of(n: &Note) -> [u8; 32] {
    ExtractedNoteCommitment::from(n.commitment()).to_bytes()
}

fn values() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 100_000_000, 2_100_000_000_000_000, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
    for b in 0..64 {
        v.push(1 << b);
        v.push(!(1u64 << b));
    }
    v.sort();
    v.dedup();
    v
}

pub fn c19(x: &mut Ctx) {
    let seed = x.seed;
    let vals = values();
    x.bound(format!("{} values (every bit set and cleared) x addresses of both scopes and edge diversifiers x edge rho x edge seeds; commitment and nullifier for every seed below {}; every bit of diversifier, value, seed and rho changed; nullifiers under edge nullifier keys and viewing keys sharing one component; notes created in built bundles of all shapes up to 3x3; circuits for outputs bound to the nullifier and to 6 other values, for edge values and both scopes", vals.len(), x.q(1 << 11, 1 << 15)));
    x.assume("Sinsemilla, hash-to-curve and Poseidon parameters as in refm.rs; Poseidon permutation of halo2_gadgets trusted");
    let k = Key::new(seed, 0);
    let k2 = Key::new(seed, 1);
    let mut addrs: Vec<[u8; 43]> = vec![k.addr(false, 0), k.addr(true, 0), k2.addr(false, 9)];
    for d in [[0u8; 11], [0xff; 11], [0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]] {
        addrs.push(k.r.scope(false).address(&d));
    }
    // A transmission key without any relation to the diversifier, and its negation.
    let mut a = addrs[0];
    a[11..].copy_from_slice(&group::GroupEncoding::to_bytes(&refm::spend_auth_g()));
    addrs.push(a);
    a[42] ^= 0x80;
    addrs.push(a);
    let rhos: Vec<Base> = vec![
        Base::zero(),
        Base::one(),
        -Base::one(),
        Base::from(2).pow_vartime([254]),
        Base::from(2).pow_vartime([254]) - Base::one(),
        Base::from(2).pow_vartime([130]) - Base::one(),
        Base::from(2).pow_vartime([249]),
        rbase(seed, "rho", 0),
    ];
    let seeds: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], bytes32(seed, "rseed", 0), bytes32(seed, "rseed", 1)];

    x.space("commitment", &|c: &mut Chooser| {
        let n = RNote {
            addr: *c.of("recipient", &addrs),
            v: *c.of("value", &vals),
            rho: *c.of("rho", &rhos),
            rseed: *c.of("rseed", &seeds),
        };
        let r = note(&n);
        eq!(hx(cmx_of(&r)), hx(n.cmx().to_repr()), "commitment of {n:?}");
        eq!(note_to_ref(&r), n, "components of the note");
        c.state(cmx_of(&r));
        c.compared_n(2);
        Ok(())
    });
    let base = RNote { addr: addrs[0], v: 0x0123_4567_89ab_cdef, rho: rhos[7], rseed: seeds[2] };
    // Every small seed: psi, the trapdoor and thus the rest are generic.
    let small = x.q(1usize << 11, 1 << 15);
    x.space("small seeds", &|c: &mut Chooser| {
        let i = c.pick("seed", small) as u64;
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&i.to_le_bytes());
        let internal = c.flag("internal");
        let n = RNote { addr: k.addr(internal, i as u128 % 7), v: i * 0x1_0001, rho: Base::from(i * i), rseed: s };
        let r = note(&n);
        eq!(hx(cmx_of(&r)), hx(n.cmx().to_repr()), "commitment of {n:?}");
        eq!(hx(r.nullifier(&k.fvk).to_bytes()), hx(n.nullifier(&k.r.nk).to_repr()), "nullifier of {n:?}");
        c.state(cmx_of(&r));
        c.compared_n(2);
        Ok(())
    });
    x.space("binding", &|c: &mut Chooser| {
        let mut n = base.clone();
        let what = c.pick("component", 5);
        match what {
            0 => {
                let b = c.pick("diversifier bit", 88);
                n.addr[b / 8] ^= 1 << (b % 8);
            }
            1 => n.v ^= 1 << c.pick("value bit", 64),
            2 => {
                let b = c.pick("seed bit", 256);
                n.rseed[b / 8] ^= 1 << (b % 8);
            }
            3 => {
                let b = c.pick("rho bit", 254);
                let mut r = n.rho.to_repr();
                r[b / 8] ^= 1 << (b % 8);
                match refm::base(&r) {
                    Some(b) => n.rho = b,
                    None => return Ok(()),
                }
            }
            _ => match c.pick("transmission key", 3) {
                0 => n.addr[42] ^= 0x80,
                1 => n.addr[11..].copy_from_slice(&k.addr(true, 0)[11..]),
                _ => n.addr[11..].copy_from_slice(&k2.addr(false, 0)[11..]),
            },
        }
        let (r, b) = (note(&n), note(&base));
        let got = cmx_of(&r);
        eq!(hx(got), hx(n.cmx().to_repr()), "commitment of the altered note");
        ensure!(got != cmx_of(&b), "changing component {what} left the commitment unchanged");
        ensure!(r != b, "notes with different components are equal");
        let nf = r.nullifier(&k.fvk).to_bytes();
        eq!(hx(nf), hx(n.nullifier(&k.r.nk).to_repr()), "nullifier of the altered note");
        ensure!(nf != b.nullifier(&k.fvk).to_bytes(), "changing component {what} left the nullifier unchanged");
        c.state([&got[..], &nf].concat());
        c.compared_n(5);
        Ok(())
    });

    let nks: Vec<Base> = vec![
        Base::zero(),
        Base::one(),
        -Base::one(),
        Base::from(2).pow_vartime([254]),
        k.r.nk,
        k2.r.nk,
        rbase(seed, "nk", 5),
    ];
    let mk = |nk: &Base, ak: &[u8; 32], rivk: &Scalar| -> FullViewingKey {
        FullViewingKey::from_bytes(&refm::fvk_bytes(&refm::Fvk { ak: *ak, nk: *nk, rivk: *rivk })).expect("viewing key")
    };
    let nvals = x.q(vec![0u64, 1, u64::MAX], vals.clone());
    x.space("nullifier", &|c: &mut Chooser| {
        let n = RNote {
            addr: addrs[c.pick("recipient", x_q(addrs.len()))],
            v: *c.of("value", &nvals),
            rho: *c.of("rho", &rhos),
            rseed: *c.of("rseed", &seeds[1..3]),
        };
        let nk = c.of("nk", &nks);
        let r = note(&n);
        let want = n.nullifier(nk).to_repr();
        // Keys that share nk but nothing else give the same nullifier.
        for (ak, rivk) in [(k.r.ak, k.r.ext.rivk), (k2.r.ak, k2.r.ext.rivk), (k.r.ak, k.r.int.rivk)] {
            eq!(hx(r.nullifier(&mk(nk, &ak, &rivk)).to_bytes()), hx(want), "nullifier");
        }
        for o in &nks {
            if o != nk {
                ensure!(n.nullifier(o).to_repr() != want, "reference nullifiers of two keys coincide");
            }
        }
        c.state(want);
        c.compared_n(3);
        Ok(())
    });
    x.space("parts", &|c: &mut Chooser| {
        // A note taken apart and put together again, directly and through its bytes.
        let n = RNote {
            addr: *c.of("recipient", &addrs),
            v: *c.of("value", &nvals),
            rho: *c.of("rho", &rhos),
            rseed: *c.of("rseed", &seeds),
        };
        let r = note(&n);
        let again: Note =
            Option::from(Note::from_parts(r.recipient(), r.value(), r.rho(), *r.rseed())).ok_or("own parts rejected")?;
        ensure!(again == r, "reassembled note differs");
        eq!(hx(cmx_of(&again)), hx(n.cmx().to_repr()), "commitment of the reassembled note");
        eq!(NoteValue::from_raw(n.v).inner(), n.v, "value");
        c.state(cmx_of(&again));
        c.compared_n(2);
        Ok(())
    });
    // A circuit is only made for an output that is bound to the spent note's nullifier.
    x.space("binding to the nullifier", &|c: &mut Chooser| {
        let (v_old, v_new) = (*c.of("spent value", &[0u64, 1, u64::MAX]), *c.of("new value", &[0u64, 1, u64::MAX]));
        let internal = c.flag("internal");
        let old = rnote(k.addr(internal, 5), v_old, *c.of("old rho", &rhos), seeds[2]);
        let nf = old.nullifier(&k.r.nk);
        let list = [
            ("the nullifier", nf),
            ("nullifier + 1", nf + Base::one()),
            ("minus nullifier", -nf),
            ("old rho", old.rho),
            ("zero", Base::zero()),
            ("another key's nullifier", old.nullifier(&k2.r.nk)),
            ("twice removed", rnote(k.addr(internal, 5), v_old, nf, seeds[2]).nullifier(&k.r.nk)),
        ];
        let (what, r) = c.of("new rho", &list);
        let new = rnote(*c.of("recipient", &[k.addr(false, 0), k.addr(true, 1), k2.addr(false, 2)]), v_new, *r, seeds[3]);
        let path = RPath { pos: 3, path: [Base::from(9); 32] };
        let info = SpendInfo::new(k.fvk.clone(), note(&old), path.real()).ok_or("not spendable")?;
        let rcv = Option::from(orchard::value::ValueCommitTrapdoor::from_bytes([3; 32])).ok_or("rcv")?;
        let made = orchard::circuit::Circuit::from_action_context(info, note(&new), Scalar::from(4), rcv).is_some();
        eq!(made, *r == nf, "an output whose rho is {what}, values {v_old} and {v_new}: accepted");
        c.state(format!("{v_old} {v_new} {internal} {what} {}", hx(old.cmx().to_repr())));
        c.compared();
        Ok(())
    });
    // Notes created by the builder are bound to the nullifier their action reveals.
    let reps = x.q(2, 12);
    x.space("in-action", &|c: &mut Chooser| {
        let (s, o) = (c.pick("spends", 4), c.pick("outputs", 4));
        let i = c.pick("seed", reps) as u64;
        let spends: Vec<_> = (0..s as u64)
            .map(|j| {
                let internal = (i + j) % 2 == 1;
                (k.clone(), internal, rnote(k.addr(internal, j as u128), j * 7, rbase(seed, "r", i * 10 + j), bytes32(seed, "s", i * 10 + j)))
            })
            .collect();
        let (root, owned) = plant(spends);
        let mut b = Builder::new(BT::Tx { s: true, o: true, req: true }.real(), anchor(&root));
        for w in &owned {
            w.add_to(&mut b).map_err(|e| format!("{e:?}"))?;
        }
        let to = [k.addr(false, 3), k2.addr(true, 4), k.addr(true, 3)];
        for j in 0..o {
            let v = [0, 1000 + j as u64, i64::MAX as u64 / 4][(i as usize + j) % 3];
            b.add_output(None, address(&to[j]), NoteValue::from_raw(v), memo(j)).map_err(|e| format!("{e:?}"))?;
        }
        let (bundle, _) = b.build::<i64>(DetRng::new(seed, "in-action", i)).map_err(|e| format!("{e:?}"))?.ok_or("no bundle")?;
        let mut seen = 0;
        for (ai, a) in bundle.actions().iter().enumerate() {
            let p = rpub(a);
            for (key, internal) in [(&k, false), (&k, true), (&k2, false), (&k2, true)] {
                let want = refm::decrypt_ivk(&p, &key.r.scope(internal).ivk);
                let got = bundle.decrypt_output_with_key(ai, &key.fvk.to_ivk(scope(internal)));
                eq!(got.as_ref().map(|g| note_to_ref(&g.0)), want.as_ref().map(|w| w.0.clone()), "note of action {ai}");
                if let Some((n, _, _)) = got {
                    seen += 1;
                    eq!(hx(n.rho().to_bytes()), hx(a.nullifier().to_bytes()), "rho of the note created in action {ai}");
                    eq!(hx(cmx_of(&n)), hx(a.cmx().to_bytes()), "commitment of the note created in action {ai}");
                    eq!(hx(a.rho().to_bytes()), hx(a.nullifier().to_bytes()), "rho of action {ai}");
                    c.state(cmx_of(&n));
                    c.compared_n(3);
                }
            }
        }
        eq!(seen, o, "notes found");
        let mut nfs: Vec<_> = bundle.actions().iter().map(|a| a.nullifier().to_bytes()).collect();
        for w in &owned {
            let at = nfs.iter().position(|n| *n == w.nf());
            ensure!(at.is_some(), "the nullifier of a spent note does not appear");
            nfs.remove(at.unwrap());
        }
        Ok(())
    });
}
fn x_q(n: usize) -> usize {
    n.min(6)
}
