//! C09, C10: transaction identifier and authorizing data commitments (ZIP 244).

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, RAction};
use crate::{ensure, eq};
use ff::PrimeField;
use group::GroupEncoding;
use orchard::{
    bundle::{commitments::*, Authorization, Authorized},
    primitives::redpallas,
    Bundle,
};

pub const BALANCES: [i64; 12] = [
    0,
    1,
    -1,
    255,
    -256,
    1 << 31,
    -(1 << 32),
    2_100_000_000_000_000,
    -2_100_000_000_000_000,
    i64::MAX,
    i64::MIN,
    i64::MIN + 1,
];

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct NoAuth;
impl Authorization for NoAuth {
    type SpendAuth = u32;
}

/// A balance type other than `i64`.
#[derive(Clone, Copy, Debug)]
pub struct Amount(pub i64);
impl From<Amount> for i64 {
    fn from(a: Amount) -> i64 {
        a.0
    }
}

/// Pseudorandom but well-formed public action data.
pub fn gen_action(seed: u64, i: u64) -> RAction {
    let mut enc = vec![];
    for k in 0..10 {
        enc.extend_from_slice(&bytes64(seed, "enc", i * 100 + k));
    }
    enc.truncate(580);
    let mut out = bytes64(seed, "out", i).to_vec();
    out.extend_from_slice(&bytes64(seed, "out2", i)[..16]);
    RAction {
        nf: rbase(seed, "nf", i).to_repr(),
        rk: (refm::spend_auth_g() * rscalar(seed, "rk", i)).to_bytes(),
        cmx: rbase(seed, "cmx", i).to_repr(),
        cv: (refm::value_r() * rscalar(seed, "cv", i)).to_bytes(),
        epk: bytes32(seed, "epk", i),
        enc,
        out,
    }
}

pub fn unauth(a: &[RAction], fl: u8, bal: i64, anchor: &[u8; 32]) -> Bundle<NoAuth, i64> {
    let acts: Vec<_> = a.iter().enumerate().map(|(i, x)| action_from(x, i as u32).expect("action parses")).collect();
    Bundle::from_parts(
        nonempty::NonEmpty::from_vec(acts).unwrap(),
        orchard::bundle::Flags::from_byte(fl).unwrap(),
        bal,
        Option::from(orchard::Anchor::from_bytes(*anchor)).unwrap(),
        NoAuth,
    )
}
fn txid<T: Authorization, V: Copy + Into<i64>>(b: &Bundle<T, V>) -> [u8; 32] {
    b.commitment().into()
}

/// Anchors at the edges of the field and inside it.
pub fn anchors(seed: u64) -> Vec<[u8; 32]> {
    let mut v = vec![
        refm::Base::zero().to_repr(),
        refm::Base::one().to_repr(),
        (-refm::Base::one()).to_repr(),
        refm::empty_roots()[32].to_repr(),
    ];
    v.push(rbase(seed, "anchor", 0).to_repr());
    v.push(rbase(seed, "anchor", 1).to_repr());
    v
}

/// All single-field variants of one action: every byte of every field (points and field
/// elements are replaced by other valid encodings instead).
pub fn perturb(a: &RAction, f: usize, k: usize, mask: u8, seed: u64) -> RAction {
    let mut a = a.clone();
    let id = |k: usize| -> [u8; 32] {
        match k {
            0 => [0; 32],
            _ => (refm::spend_auth_g() * rscalar(seed, "other", k as u64)).to_bytes(),
        }
    };
    let el = |k: usize| -> [u8; 32] {
        match k {
            0 => [0; 32],
            1 => (-refm::Base::one()).to_repr(),
            2 => refm::Base::one().to_repr(),
            _ => rbase(seed, "otherb", k as u64).to_repr(),
        }
    };
    match f {
        0 => a.nf = el(k),
        1 => a.cmx = el(k),
        2 => a.rk = id(k),
        3 => a.cv = id(k),
        4 => a.epk[k] ^= mask,
        5 => a.enc[k] ^= mask,
        6 => a.out[k] ^= mask,
        _ => unreachable!(),
    }
    a
}
pub const FIELDS: [(&str, usize); 7] =
    [("nf", 6), ("cmx", 6), ("rk", 5), ("cv", 5), ("epk", 32), ("enc", 580), ("out", 80)];

pub fn c09(x: &mut Ctx) {
    let seed = x.seed;
    x.bound(format!("1..=4, 8, 16, 17, 32, 33, 64, 65 actions x 4 flag bytes x 12 balances x 6 anchors; every byte position of epk, enc_ciphertext, out_ciphertext and edge values of nf, cmx, rk, cv in each of up to 3 actions; all permutations of up to 4 actions; every count of actions to {}, and every field of each action of lists of up to {} changed; every pair of actions agreeing in any part, in all but one, or entirely; constant fills; 3 authorization states", x.q(300, 1500), x.q(131, 600)));
    x.assume("BLAKE2b itself (blake2b_simd) is trusted; ZIP 244 layout is specified independently in refm.rs");
    let counts = [1usize, 2, 3, 4, 8, 16, 17, 32, 33, 64, 65];
    let pool: Vec<RAction> = (0..70).map(|i| gen_action(seed, i)).collect();
    let an = anchors(seed);

    x.space("empty", &|c: &mut Chooser| {
        eq!(hash_bundle_txid_empty().as_bytes().to_vec(), refm::b2_256(b"ZTxIdOrchardHash", &[]).to_vec(), "commitment of the absent bundle");
        c.state("empty");
        c.compared();
        Ok(())
    });
    x.space("header", &|c: &mut Chooser| {
        let n = *c.of("actions", &counts);
        let fl = c.pick("flags", 4) as u8;
        let bal = *c.of("balance", &BALANCES);
        let a = *c.of("anchor", &an);
        let b = unauth(&pool[..n], fl, bal, &a);
        let want = refm::txid_digest(&pool[..n], fl, bal, &a);
        eq!(hx(txid(&b)), hx(want), "bundle commitment");
        // The representation of the balance is irrelevant.
        let b2: Bundle<NoAuth, Amount> = b.clone().try_map_value_balance::<_, (), _>(|v| Ok(Amount(v))).unwrap();
        eq!(hx(txid(&b2)), hx(want), "bundle commitment with another balance type");
        c.state(want);
        c.compared_n(2);
        Ok(())
    });
    let masks: Vec<u8> = if x.thorough() { vec![1, 2, 4, 8, 16, 32, 64, 128, 255] } else { vec![1, 0x80] };
    x.space("action-fields", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 3);
        let which = c.pick("perturbed action", n);
        let f = c.pick("field", FIELDS.len());
        let k = c.pick("position", FIELDS[f].1);
        let m = if f >= 4 { *c.of("mask", &masks) } else { 0 };
        let mut acts = pool[..n].to_vec();
        let before = refm::txid_digest(&acts, 3, 7, &an[4]);
        acts[which] = perturb(&acts[which], f, k, m, seed);
        let got = txid(&unauth(&acts, 3, 7, &an[4]));
        eq!(hx(got), hx(refm::txid_digest(&acts, 3, 7, &an[4])), "bundle commitment after changing {} of action {which}", FIELDS[f].0);
        ensure!(got != before, "changing {} of action {which} at {k} left the commitment unchanged", FIELDS[f].0);
        c.state(got);
        c.compared_n(2);
        c.outcome(FIELDS[f].0);
        Ok(())
    });
    x.space("action-order", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 4);
        let mut left: Vec<usize> = (0..n).collect();
        let mut order = vec![];
        while !left.is_empty() {
            let i = c.pick("next", left.len());
            order.push(left.remove(i));
        }
        // Action data moved between fields of neighbours as well as whole actions.
        let acts: Vec<RAction> = order.iter().map(|i| pool[*i].clone()).collect();
        let got = txid(&unauth(&acts, 2, -5, &an[5]));
        eq!(hx(got), hx(refm::txid_digest(&acts, 2, -5, &an[5])), "bundle commitment of order {order:?}");
        if order.windows(2).any(|w| w[0] > w[1]) {
            let id = refm::txid_digest(&pool[..n], 2, -5, &an[5]);
            ensure!(got != id, "reordering actions {order:?} left the commitment unchanged");
        }
        c.state(got);
        c.compared();
        Ok(())
    });
    // Actions that agree in one part, in all but one part, or entirely.
    let parts: [(&str, fn(&mut RAction, &RAction)); 11] = [
        ("nothing", |_, _| {}),
        ("nullifier", |a, b| a.nf = b.nf),
        ("commitment", |a, b| a.cmx = b.cmx),
        ("randomized key", |a, b| a.rk = b.rk),
        ("value commitment", |a, b| a.cv = b.cv),
        ("ephemeral key", |a, b| a.epk = b.epk),
        ("compact ciphertext", |a, b| a.enc[..52].copy_from_slice(&b.enc[..52])),
        ("memo ciphertext", |a, b| a.enc[52..564].copy_from_slice(&b.enc[52..564])),
        ("tag", |a, b| a.enc[564..].copy_from_slice(&b.enc[564..])),
        ("outgoing ciphertext", |a, b| a.out = b.out.clone()),
        ("nullifier and commitment", |a, _| a.cmx = a.nf),
    ];
    let nmax = x.q(4usize, 6);
    x.space("coincidences", &|c: &mut Chooser| {
        let n = 2 + c.pick("actions-2", nmax - 1);
        let (i, j) = (c.pick("from", n), c.pick("to", n));
        let f = c.pick("part", parts.len());
        let but = c.flag("all others");
        let all = c.flag("every action");
        let mut acts = pool[..n].to_vec();
        let src = acts[i].clone();
        for (k, a) in acts.iter_mut().enumerate() {
            if all || k == j {
                for (g, (_, copy)) in parts.iter().enumerate().take(10) {
                    if (g == f) != but {
                        copy(a, &src);
                    }
                }
                if f == 10 {
                    parts[10].1(a, &src);
                }
            }
        }
        let got = txid(&unauth(&acts, 3, 3, &an[5]));
        eq!(hx(got), hx(refm::txid_digest(&acts, 3, 3, &an[5])), "bundle commitment of {n} actions, action {j} with the {} of action {i} (all others: {but}, every action: {all})", parts[f].0);
        c.state(got);
        c.compared();
        Ok(())
    });
    // Every number of actions, and each action of a long list altered.
    let most = x.q(300usize, 1500);
    x.space("counts", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", most);
        let mut acts: Vec<RAction> = pool[..70].iter().cycle().take(n).cloned().collect();
        for (i, a) in acts.iter_mut().enumerate() {
            a.enc[60..62].copy_from_slice(&(i as u16).to_le_bytes());
        }
        let got = txid(&unauth(&acts, 3, n as i64, &an[4]));
        eq!(hx(got), hx(refm::txid_digest(&acts, 3, n as i64, &an[4])), "bundle commitment of {n} actions");
        c.state(got);
        c.compared();
        Ok(())
    });
    let longs: Vec<usize> = x.q(vec![6, 13, 34, 65, 131], vec![5, 6, 7, 13, 34, 65, 66, 131, 258, 600]);
    x.space("long", &|c: &mut Chooser| {
        let n = *c.of("actions", &longs);
        let which = c.pick("perturbed action", n);
        let f = c.pick("field", FIELDS.len());
        let mut acts: Vec<RAction> = pool[..70].iter().cycle().take(n).cloned().collect();
        acts[which] = perturb(&acts[which], f, 1 + n % 4, 4, seed);
        let got = txid(&unauth(&acts, 1, -3, &an[5]));
        eq!(hx(got), hx(refm::txid_digest(&acts, 1, -3, &an[5])), "bundle commitment after changing {} of action {which} of {n}", FIELDS[f].0);
        c.state(got);
        c.compared();
        Ok(())
    });
    x.space("fills", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 3);
        let which = c.pick("action", n);
        let f = c.pick("field", 3);
        let fill = *c.of("fill", &[0u8, 0xff, 0xf6, 1]);
        let upto = c.flag("only the first half");
        let mut acts = pool[..n].to_vec();
        let a = &mut acts[which];
        let s: &mut [u8] = match f {
            0 => &mut a.enc,
            1 => &mut a.out,
            _ => &mut a.epk,
        };
        let l = if upto { s.len() / 2 } else { s.len() };
        s[..l].fill(fill);
        let got = txid(&unauth(&acts, 1, 0, &an[0]));
        eq!(hx(got), hx(refm::txid_digest(&acts, 1, 0, &an[0])), "bundle commitment with {fill} filled in");
        c.state(got);
        c.compared();
        Ok(())
    });
    x.space("authorization-independent", &|c: &mut Chooser| {
        let n = *c.of("actions", &[1usize, 2, 5]);
        let pl = *c.of("proof bytes", &[0usize, 1, 2720 + 2272, 7264]);
        let sg = c.pick("signatures", 3) as u8;
        let r = RBundle {
            actions: pool[..n].to_vec(),
            sigs: (0..n).map(|i| [sg.wrapping_mul(i as u8 + 1); 64]).collect(),
            flags: 3,
            balance: 12,
            anchor: an[4],
            proof: vec![sg ^ 0x5a; pl],
            binding: [sg; 64],
        };
        let b = r.real().ok_or("bundle does not parse")?;
        let want = r.txid();
        eq!(hx(txid(&b)), hx(want), "commitment of the authorized bundle");
        eq!(hx(txid(&unauth(&r.actions, 3, 12, &an[4]))), hx(want), "commitment of the unauthorized bundle");
        let m = b.map_authorization(&mut (), |_, _, _| 0u32, |_, _| NoAuth);
        eq!(hx(txid(&m)), hx(want), "commitment after an authorization transition");
        c.state([&want[..], &[sg, (pl % 251) as u8]].concat());
        c.compared_n(3);
        Ok(())
    });
}

pub fn c10(x: &mut Ctx) {
    let seed = x.seed;
    x.bound("1..=4, 8, 16, 33 actions; proof lengths 0,1,63..65,127..129,255..257,2720..,7264,65535..65537,300001; every proof length below 1500 (thorough 8000) and action count to 130 (400); every byte of a whole proof, every byte of every signature of up to 3 actions; all signature permutations of up to 4; every two signatures equal, or constant");
    let pool: Vec<RAction> = (0..40).map(|i| gen_action(seed, i)).collect();
    let an = anchors(seed);
    let mk = |n: usize, pl: usize, s: u64| -> RBundle {
        let mut proof = vec![];
        for k in 0..(pl as u64 + 63) / 64 {
            proof.extend_from_slice(&bytes64(seed, "proof", s * 1000 + k));
        }
        proof.truncate(pl);
        RBundle {
            actions: pool[..n].to_vec(),
            sigs: (0..n).map(|i| bytes64(seed, "sig", s * 100 + i as u64)).collect(),
            flags: 3,
            balance: 4,
            anchor: an[4],
            proof,
            binding: bytes64(seed, "bind", s),
        }
    };
    fn auth(b: &Bundle<Authorized, i64>) -> Vec<u8> {
        b.authorizing_commitment().0.as_bytes().to_vec()
    }
    x.space("empty", &|c: &mut Chooser| {
        eq!(hash_bundle_auth_empty().as_bytes().to_vec(), refm::b2_256(b"ZTxAuthOrchaHash", &[]).to_vec(), "authorizing commitment of the absent bundle");
        c.state("empty");
        c.compared();
        Ok(())
    });
    let lens = [0usize, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 2720, 4992, 7264, 7265, 65535, 65536, 65537, 131072, 300_001];
    x.space("shape", &|c: &mut Chooser| {
        let n = *c.of("actions", &[1usize, 2, 3, 4, 8, 16, 33]);
        let pl = *c.of("proof length", &lens);
        let s = c.pick("contents", 3) as u64;
        let r = mk(n, pl, s);
        let b = r.real().ok_or("bundle does not parse")?;
        eq!(hx(auth(&b)), hx(r.auth()), "authorizing commitment");
        c.state(r.auth());
        c.compared();
        Ok(())
    });
    // Every length of a proof, every number of actions, every byte of a whole proof.
    let (lmax, nmax) = (x.q(1500usize, 8000), x.q(130usize, 400));
    let apool: Vec<RAction> = (0..nmax).map(|i| pool[i % pool.len()].clone()).collect();
    x.space("sizes", &|c: &mut Chooser| {
        let (n, pl) = if c.flag("many actions") { (1 + c.pick("actions-1", nmax), 40) } else { (1, c.pick("proof length", lmax)) };
        let mut r = mk(1, pl, 2);
        r.actions = apool[..n].to_vec();
        r.sigs = (0..n).map(|i| bytes64(seed, "many", i as u64)).collect();
        let b = r.real().ok_or("bundle does not parse")?;
        eq!(hx(auth(&b)), hx(r.auth()), "authorizing commitment of {n} actions and a proof of {pl} bytes");
        c.state(r.auth());
        c.compared();
        Ok(())
    });
    let whole: Vec<usize> = x.q(vec![4992], vec![4992, 7264, 9536]);
    x.space("proof bytes", &|c: &mut Chooser| {
        let pl = *c.of("proof length", &whole);
        let k = c.pick("byte", pl);
        let mut r = mk(1, pl, 3);
        r.proof[k] ^= *c.of("mask", &[0x40u8, 0x01]);
        let b = r.real().ok_or("bundle does not parse")?;
        eq!(hx(auth(&b)), hx(r.auth()), "authorizing commitment with byte {k} of the proof changed");
        c.state(r.auth());
        c.compared();
        Ok(())
    });
    let masks: Vec<u8> = if x.thorough() { (0..8).map(|i| 1 << i).collect() } else { vec![1, 0x80] };
    x.space("bytes", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 3);
        let which = c.pick("component", n + 2);
        let mut r = mk(n, 2720 + 2272 * n, 1);
        let before = r.auth();
        let m;
        if which == 0 {
            let k = c.pick("proof byte", 400);
            m = *c.of("mask", &masks);
            let k = if k < 300 { k } else { r.proof.len() - 400 + k };
            r.proof[k] ^= m;
        } else if which == 1 {
            let k = c.pick("binding signature byte", 64);
            m = *c.of("mask", &masks);
            r.binding[k] ^= m;
        } else {
            let k = c.pick("signature byte", 64);
            m = *c.of("mask", &masks);
            r.sigs[which - 2][k] ^= m;
        }
        let b = r.real().ok_or("bundle does not parse")?;
        let got = auth(&b);
        eq!(hx(&got), hx(r.auth()), "authorizing commitment");
        ensure!(got != before, "changing the authorizing data left the commitment unchanged");
        c.state(&got);
        c.compared_n(2);
        Ok(())
    });
    x.space("signature-order", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 4);
        let mut r = mk(n, 500, 2);
        let mut left: Vec<usize> = (0..n).collect();
        let mut sigs = vec![];
        while !left.is_empty() {
            let i = c.pick("next", left.len());
            sigs.push(r.sigs[left.remove(i)]);
        }
        r.sigs = sigs;
        let b = r.real().ok_or("bundle does not parse")?;
        eq!(hx(auth(&b)), hx(r.auth()), "authorizing commitment");
        c.state(r.auth());
        c.compared();
        Ok(())
    });
    x.space("coincidences", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 4);
        let mut r = mk(n, *c.of("proof length", &[0usize, 64, 2720 + 2272 * n]), 3);
        let (from, to) = (c.pick("from", n + 3), c.pick("to", n + 2));
        let src = match from {
            i if i < n => r.sigs[i],
            i if i == n => r.binding,
            i if i == n + 1 => [0; 64],
            _ => [0xff; 64],
        };
        match to {
            i if i < n => r.sigs[i] = src,
            i if i == n => r.binding = src,
            _ => {
                r.sigs.fill(src);
                r.binding = src;
            }
        }
        let b = r.real().ok_or("bundle does not parse")?;
        eq!(hx(auth(&b)), hx(r.auth()), "authorizing commitment with signature {to} equal to {from}");
        c.state(r.auth());
        c.compared();
        Ok(())
    });
    x.space("effects-independent", &|c: &mut Chooser| {
        let f = c.pick("field", FIELDS.len() + 3);
        let mut r = mk(2, 700, 0);
        let want = r.auth();
        match f {
            7 => r.flags = c.pick("flags", 4) as u8,
            8 => r.balance = *c.of("balance", &BALANCES),
            9 => r.anchor = *c.of("anchor", &an),
            f => {
                let k = c.pick("position", FIELDS[f].1);
                r.actions[1] = perturb(&r.actions[1], f, k, 0x10, seed);
            }
        }
        let b = r.real().ok_or("bundle does not parse")?;
        eq!(hx(auth(&b)), hx(want), "authorizing commitment depends on the bundle's effects");
        // Both commitments together bind the bundle.
        let id: [u8; 32] = b.commitment().into();
        c.state([&id[..], &want].concat());
        c.compared();
        Ok(())
    });
    let _ = redpallas::Signature::<redpallas::SpendAuth>::from([0; 64]);
}
