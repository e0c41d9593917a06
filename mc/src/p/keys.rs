//! C14 key hierarchy, C15 address ownership, C16 ZIP 32 account keys.

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base, Fvk, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use group::GroupEncoding;
use orchard::{keys::*, primitives::redpallas, Address};

/// Spending keys of every simple shape: single bits, fills, counters, hashes.
pub fn sk_pool(seed: u64, random: usize) -> Vec<[u8; 32]> {
    let mut v = vec![];
    for b in 0..256 {
        let mut s = [0u8; 32];
        s[b / 8] = 1 << (b % 8);
        v.push(s);
    }
    for f in [0u8, 1, 7, 0x55, 0x7f, 0x80, 0xaa, 0xfe, 0xff] {
        v.push([f; 32]);
    }
    for b in 0..32 {
        let mut s = [0xffu8; 32];
        s[b] = 0;
        v.push(s);
    }
    for i in 0..random {
        v.push(bytes32(seed, "sk", i as u64));
    }
    v
}

fn opt<T>(x: subtle::CtOption<T>) -> Option<T> {
    Option::from(x)
}

/// Everything observable of a full viewing key, against the reference.
fn check_fvk(c: &mut Chooser, fvk: &FullViewingKey, r: &Fvk, what: &str) -> Result<(), String> {
    eq!(hx(fvk.to_bytes()), hx(refm::fvk_bytes(r)), "{what}: full viewing key");
    let ak: SpendValidatingKey = fvk.clone().into();
    eq!(hx(ak.to_bytes()), hx(r.ak), "{what}: ak");
    ensure!(ak.to_bytes()[31] & 0x80 == 0, "{what}: ak has negative sign");
    let ext = refm::scope_keys(r).ok_or("reference: invalid")?;
    let int = refm::scope_keys(&refm::internal_fvk(r)).ok_or("reference: invalid")?;
    for (internal, k) in [(false, &ext), (true, &int)] {
        let s = scope(internal);
        eq!(hx(fvk.to_ivk(s).to_bytes()), hx(k.ivk_bytes()), "{what}: incoming viewing key, {s:?}");
        eq!(hx(fvk.to_ovk(s).as_ref()), hx(k.ovk), "{what}: outgoing viewing key, {s:?}");
        let p: IncomingViewingKey =
            opt(IncomingViewingKey::from_bytes(&k.ivk_bytes())).ok_or("incoming key does not parse")?;
        ensure!(p == fvk.to_ivk(s), "{what}: parsed incoming viewing key differs, {s:?}");
        c.state(k.ivk_bytes());
        c.compared_n(3);
    }
    ensure!(fvk.to_ivk(Scope::External) != fvk.to_ivk(Scope::Internal), "{what}: internal and external incoming keys coincide");
    ensure!(
        fvk.to_ovk(Scope::External).as_ref() != fvk.to_ovk(Scope::Internal).as_ref(),
        "{what}: internal and external outgoing keys coincide"
    );
    let (e, i) = (fvk.to_ivk(Scope::External).to_bytes(), fvk.to_ivk(Scope::Internal).to_bytes());
    ensure!(e[..32] != i[..32], "{what}: internal and external diversifier keys coincide");
    ensure!(e[32..] != i[32..], "{what}: internal and external ivk coincide");
    Ok(())
}

pub fn c14(x: &mut Ctx) {
    let seed = x.seed;
    let pool = sk_pool(seed, x.q(300, 12_000));
    x.bound(format!("{} spending keys (all single-bit keys, fills, holes, hashes) x 4 construction routes x both scopes; every spending key below 2^{} (little-endian); 14 randomizers each on a subset; ak x nk x rivk grid of edge values for viewing keys without a spending key", pool.len(), x.q(11, 16)));
    x.assume("Pasta arithmetic, hash-to-curve, BLAKE2b, AES/FF1 and Poseidon of the dependencies are trusted; derivations are written independently in refm.rs");
    x.space("derivation", &|c: &mut Chooser| {
        let sk = *c.of("sk", &pool);
        let r = refm::keys(&sk);
        let got: Option<SpendingKey> = opt(SpendingKey::from_bytes(sk));
        eq!(got.is_some(), r.is_some(), "spending key validity");
        let (Some(s), Some(r)) = (got, r) else { return Ok(()) };
        eq!(hx(s.to_bytes()), hx(sk), "spending key bytes");
        let ask = SpendAuthorizingKey::from(&s);
        let ask0: [u8; 32] = (&ask.randomize(&Scalar::zero())).into();
        eq!(hx(ask0), hx(r.ask.to_repr()), "spend authorizing key");
        let ak = SpendValidatingKey::from(&ask);
        eq!(hx(ak.to_bytes()), hx(r.ak), "ak of ask");
        let fvk = FullViewingKey::from(&s);
        match c.pick("route", 4) {
            0 => check_fvk(c, &fvk, &r.fvk(), "derived")?,
            1 => {
                let f = FullViewingKey::from_bytes(&fvk.to_bytes()).ok_or("own encoding rejected")?;
                ensure!(f == fvk, "parsed viewing key differs");
                check_fvk(c, &f, &r.fvk(), "parsed")?
            }
            2 => {
                let mut w = vec![];
                fvk.write(&mut w).map_err(|e| e.to_string())?;
                eq!(w.len(), 96usize, "written length");
                let f = FullViewingKey::read(&w[..]).map_err(|e| e.to_string())?;
                check_fvk(c, &f, &r.fvk(), "read")?
            }
            _ => {
                let f = FullViewingKey::from_bytes(&r.fvk_bytes()).ok_or("reference encoding rejected")?;
                check_fvk(c, &f, &r.fvk(), "from the reference encoding")?
            }
        }
        c.outcome(if r.ak_flipped { "ask negated" } else { "ask kept" });
        Ok(())
    });
    let oc = x.outcomes("derivation");
    if !x.has_violation() && !x.is_replay() {
        x.aggregate("derivation", if oc.len() == 2 { Ok(()) } else { Err(format!("sign cases not all explored: {oc:?}")) });
    }
    // Every small spending key: whatever derives from it is generic.
    let small = x.q(1u64 << 11, 1 << 16);
    x.space("small keys", &|c: &mut Chooser| {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&(1 + c.pick("key-1", small as usize) as u64).to_le_bytes());
        let r = refm::keys(&b).ok_or("reference: invalid")?;
        let s: SpendingKey = opt(SpendingKey::from_bytes(b)).ok_or("spending key rejected")?;
        let ask = SpendAuthorizingKey::from(&s);
        eq!(hx(<[u8; 32]>::from(&ask.randomize(&Scalar::zero()))), hx(r.ask.to_repr()), "spend authorizing key");
        eq!(hx(SpendValidatingKey::from(&ask).to_bytes()), hx(r.ak), "ak of ask");
        check_fvk(c, &FullViewingKey::from(&s), &r.fvk(), "small key")
    });
    // Equality of spending keys over all pairs that differ in one or two bits.
    let bsk = bytes32(seed, "cteq", 0);
    x.space("equality", &|c: &mut Chooser| {
        use subtle::ConstantTimeEq;
        let (i, j) = (c.pick("bit", 257), c.pick("other bit", 257));
        let f = |i: usize| {
            let mut b = bsk;
            if i < 256 {
                b[i / 8] ^= 1 << (i % 8);
            }
            opt(SpendingKey::from_bytes(b)).ok_or("invalid spending key")
        };
        if i % 16 != 15 && j % 16 != 15 && i < 255 && i != j {
            return Ok(());
        }
        let same: bool = f(i)?.ct_eq(&f(j)?).into();
        eq!(same, i == j, "equality of spending keys with bits {i} and {j} inverted");
        c.state(format!("{i} {j}"));
        c.compared();
        Ok(())
    });
    let sub: Vec<[u8; 32]> = pool.iter().rev().step_by(x.q(11, 5)).copied().collect();
    x.space("randomization", &|c: &mut Chooser| {
        let sk = *c.of("sk", &sub);
        let k = Key::from_sk(sk).ok_or("invalid")?;
        let al = match c.pick("alpha", 14) {
            0 => Scalar::zero(),
            1 => Scalar::one(),
            2 => -Scalar::one(),
            3 => k.r.ask,
            4 => -k.r.ask,
            5 => -k.r.ask + Scalar::one(),
            6 => Scalar::from(2),
            7 => Scalar::from(u64::MAX),
            8 => -(k.r.ask + k.r.ask),
            i => rscalar(seed, "alpha", i as u64),
        };
        let rsk = k.ask.randomize(&al);
        let rskb: [u8; 32] = (&rsk).into();
        eq!(hx(rskb), hx((k.r.ask + al).to_repr()), "randomized authorizing key");
        let rk: [u8; 32] = (&redpallas::VerificationKey::from(&rsk)).into();
        let want = (refm::spend_auth_g() * (k.r.ask + al)).to_bytes();
        eq!(hx(rk), hx(want), "validating key of the randomized authorizing key");
        let ak: SpendValidatingKey = k.fvk.clone().into();
        let rk2: [u8; 32] = (&ak.randomize(&al)).into();
        eq!(hx(rk2), hx(want), "randomized validating key");
        c.state([&sk[..], &want].concat());
        c.compared_n(3);
        Ok(())
    });
    // Viewing keys that no spending key was involved in.
    let aks: Vec<[u8; 32]> = (0..x.q(6, 24))
        .map(|i| {
            let mut b = match i {
                0 => refm::spend_auth_g().to_bytes(),
                1 => refm::value_r().to_bytes(),
                i => (refm::spend_auth_g() * rscalar(seed, "ak", i)).to_bytes(),
            };
            b[31] &= 0x7f;
            b
        })
        .collect();
    let nks: Vec<Base> = (0..x.q(6, 16))
        .map(|i| match i {
            0 => Base::zero(),
            1 => Base::one(),
            2 => -Base::one(),
            3 => Base::from(2).pow_vartime([254]),
            i => rbase(seed, "nk", i),
        })
        .collect();
    let rivks: Vec<Scalar> = (0..x.q(6, 16))
        .map(|i| match i {
            0 => Scalar::zero(),
            1 => Scalar::one(),
            2 => -Scalar::one(),
            3 => Scalar::from(2).pow_vartime([254]),
            i => rscalar(seed, "rivk", i),
        })
        .collect();
    x.space("viewing-only", &|c: &mut Chooser| {
        let f = Fvk { ak: *c.of("ak", &aks), nk: *c.of("nk", &nks), rivk: *c.of("rivk", &rivks) };
        let b = refm::fvk_bytes(&f);
        let k = FullViewingKey::from_bytes(&b).ok_or("valid viewing key rejected")?;
        check_fvk(c, &k, &f, "viewing-only")
    });
}

fn indices() -> Vec<u128> {
    let mut v = vec![0u128, 1, 2, 3, 255, 256, u32::MAX as u128, u64::MAX as u128];
    for b in 0..88 {
        v.push(1u128 << b);
        v.push((1u128 << b) - 1);
        v.push((1u128 << 88) - (1u128 << b));
    }
    v.push((1u128 << 88) - 1);
    v.sort();
    v.dedup();
    v
}
fn dix(j: u128) -> DiversifierIndex {
    DiversifierIndex::from(refm::idx(j))
}
fn check_queries(fvk: &FullViewingKey, r: &Fvk, a: &[u8; 43], what: &str) -> Result<Option<bool>, String> {
    let real: Option<Address> = opt(Address::from_raw_address_bytes(a));
    let Some(real) = real else { return Ok(None) };
    let want = refm::scope_of(r, a);
    eq!(fvk.scope_for_address(&real), want.map(scope), "{what}: scope of {}", hx(a));
    let d: [u8; 11] = a[..11].try_into().unwrap();
    for internal in [false, true] {
        let f = if internal { refm::internal_fvk(r) } else { r.clone() };
        let k = refm::scope_keys(&f).unwrap();
        let w = (k.address(&d) == *a).then(|| k.index(&d));
        let g = fvk.to_ivk(scope(internal)).diversifier_index(&real).map(|j| *j.as_bytes());
        eq!(g, w, "{what}: diversifier index of {} under {:?}", hx(a), scope(internal));
    }
    Ok(want)
}

pub fn c15(x: &mut Ctx) {
    let seed = x.seed;
    let ix = indices();
    x.bound(format!("{} diversifier indices (every 2^b, 2^b-1, 2^88-2^b) x 2 scopes x keys; the lowest and highest {} indices; for near misses every bit of the diversifier, substituted pk_d of other scope, key, index and its negation; edge incoming keys 1, 2, p-1, 2^254; {} diversifier keys (single bits) x all indices both ways", ix.len(), x.q(1 << 11, 1 << 16), x.q(35, 259)));
    x.assume("FF1/AES-256 and Pasta arithmetic of the dependencies are trusted");
    let nkeys = x.q(2, 12);
    let keys: Vec<Key> = (0..nkeys).map(|i| Key::new(seed, i)).collect();
    x.space("owned", &|c: &mut Chooser| {
        let k = &keys[c.pick("key", keys.len())];
        let internal = c.flag("internal");
        let j = *c.of("index", &ix);
        let sc = k.r.scope(internal);
        let want = k.addr(internal, j);
        let s = scope(internal);
        let a = k.fvk.address_at(dix(j), s);
        eq!(hx(a.to_raw_address_bytes()), hx(want), "address at index {j}");
        let ivk = k.fvk.to_ivk(s);
        eq!(hx(ivk.address_at(dix(j)).to_raw_address_bytes()), hx(want), "incoming key's address at index {j}");
        eq!(hx(ivk.address(a.diversifier()).to_raw_address_bytes()), hx(want), "incoming key's address for a diversifier");
        eq!(hx(k.fvk.address(a.diversifier(), s).to_raw_address_bytes()), hx(want), "address for a diversifier");
        if let Ok(j32) = u32::try_from(j) {
            eq!(hx(k.fvk.address_at(j32, s).to_raw_address_bytes()), hx(want), "address at u32 index {j}");
        }
        if let Ok(j64) = u64::try_from(j) {
            eq!(hx(k.fvk.address_at(j64, s).to_raw_address_bytes()), hx(want), "address at u64 index {j}");
        }
        eq!(ivk.diversifier_index(&a).map(|j| *j.as_bytes()), Some(refm::idx(j)), "index of the address at {j}");
        eq!(sc.index(&want[..11].try_into().unwrap()), refm::idx(j), "reference index");
        eq!(k.fvk.scope_for_address(&a), Some(s), "scope of its own address");
        ensure!(k.fvk.to_ivk(scope(!internal)).diversifier_index(&a).is_none(), "the other scope claims the address at {j}");
        c.state(want);
        c.compared_n(9);
        Ok(())
    });
    // Every small index (and, from the other end, every large one).
    let small = x.q(1usize << 11, 1 << 16);
    x.space("small indices", &|c: &mut Chooser| {
        let internal = c.flag("internal");
        let i = c.pick("index", small) as u128;
        let j = if c.flag("from above") { (1u128 << 88) - 1 - i } else { i };
        let k = &keys[1];
        let want = k.addr(internal, j);
        let s = scope(internal);
        let a = k.fvk.address_at(dix(j), s);
        eq!(hx(a.to_raw_address_bytes()), hx(want), "address at index {j}");
        eq!(k.fvk.to_ivk(s).diversifier_index(&a).map(|j| *j.as_bytes()), Some(refm::idx(j)), "index of the address at {j}");
        eq!(k.fvk.scope_for_address(&a), Some(s), "scope of the address at {j}");
        ensure!(k.fvk.to_ivk(scope(!internal)).diversifier_index(&a).is_none(), "the other scope claims the address at {j}");
        c.state(want);
        c.compared_n(4);
        Ok(())
    });
    // Diversifier keys on their own, for every kind of index and diversifier.
    let dks: Vec<[u8; 32]> = (0..256).map(|b| { let mut r = [0; 32]; r[b / 8] = 1 << (b % 8); r }).step_by(x.q(8, 1)).chain([[0; 32], [0xff; 32], bytes32(seed, "dk", 0)]).collect();
    x.space("diversifier keys", &|c: &mut Chooser| {
        use orchard::keys::Diversifier;
        let dk = *c.of("key", &dks);
        let j = *c.of("index", &ix);
        let r = refm::ScopeKeys { rivk: refm::Scalar::one(), ivk: refm::Base::from(2), dk, ovk: [0; 32] };
        let k = opt(IncomingViewingKey::from_bytes(&r.ivk_bytes())).ok_or("incoming key refused")?;
        let a = k.address_at(dix(j));
        eq!(hx(a.diversifier().as_array()), hx(r.diversifier(&refm::idx(j))), "diversifier at {j} of key {}", hx(dk));
        eq!(k.diversifier_index(&a).map(|i| *i.as_bytes()), Some(refm::idx(j)), "index of the diversifier at {j}");
        let e = k.address(Diversifier::from_bytes(refm::idx(j)));
        let i = k.diversifier_index(&e).ok_or("no index")?;
        eq!(*i.as_bytes(), r.index(&refm::idx(j)), "index of diversifier {j}");
        eq!(hx(k.address_at(i).to_raw_address_bytes()), hx(e.to_raw_address_bytes()), "address at the index of diversifier {j}");
        c.state(format!("{} {j}", hx(dk)));
        c.compared_n(5);
        Ok(())
    });
    let nj: Vec<u128> = x.q(vec![0, 1, 1 << 40, (1 << 88) - 1], (0..88).map(|b| (1u128 << b) - (b as u128 & 1)).collect());
    x.space("foreign", &|c: &mut Chooser| {
        let k = &keys[0];
        let other = &keys[1];
        let internal = c.flag("internal");
        let j = *c.of("index", &nj);
        let own = k.addr(internal, j);
        let d: [u8; 11] = own[..11].try_into().unwrap();
        let mut a = own;
        let kind = c.pick("variation", 10);
        match kind {
            0 => {
                let b = c.pick("diversifier bit", 88);
                a[b / 8] ^= 1 << (b % 8);
            }
            1 => a[42] ^= 0x80, // negated pk_d
            2 => a = k.r.scope(!internal).address(&d),
            3 => a = other.r.scope(internal).address(&d),
            4 => a = other.addr(internal, j),
            5 => a[11..].copy_from_slice(&k.addr(internal, (j + 1) % (1 << 88))[11..]),
            6 => a[11..].copy_from_slice(&refm::g_d(&d).to_bytes()),
            7 => a[11..].copy_from_slice(&other.addr(!internal, j)[11..]),
            8 => {
                // pk_d derived with ivk scaled or shifted by one
                let s = refm::base_as_scalar(&k.r.scope(internal).ivk);
                let m = [s + Scalar::one(), s + s, -s + Scalar::one(), s - Scalar::one()];
                let m = c.of("scalar", &m);
                a[11..].copy_from_slice(&(refm::g_d(&d) * m).to_bytes());
            }
            _ => {
                // diversifier of the other scope at the same index
                let d2 = k.r.scope(!internal).diversifier(&refm::idx(j));
                a = k.r.scope(internal).address(&d2);
            }
        }
        let w = check_queries(&k.fvk, &k.r.fvk(), &a, "foreign")?;
        if ![2, 9].contains(&kind) {
            ensure!(w.is_none(), "reference owns a foreign address, variation {kind}");
        }
        check_queries(&other.fvk, &other.r.fvk(), &a, "foreign, other key")?;
        c.state(a);
        c.compared_n(6);
        c.outcome(format!("variation {kind} {w:?}"));
        Ok(())
    });
    // Incoming viewing keys at the edges of the scalar range.
    let ivks: Vec<Base> = vec![
        Base::one(),
        Base::from(2),
        Base::from(3),
        Base::from(15),
        Base::from(16),
        Base::from(17),
        -Base::one(),
        -Base::from(2),
        Base::from(2).pow_vartime([254]),
        Base::from(2).pow_vartime([254]) - Base::one(),
        Base::from(u64::MAX),
        Base::from_u128(u128::MAX),
    ];
    x.space("edge-incoming-keys", &|c: &mut Chooser| {
        let ivk = *c.of("ivk", &ivks);
        let dk = *c.of("dk", &[[0u8; 32], [0xff; 32], bytes32(seed, "dk", 1)]);
        let sk = refm::ScopeKeys { rivk: Scalar::zero(), ivk, dk, ovk: [0; 32] };
        let k: IncomingViewingKey = opt(IncomingViewingKey::from_bytes(&sk.ivk_bytes())).ok_or("edge key rejected")?;
        let j = *c.of("index", &[0u128, 1, 77, 1 << 64, (1 << 88) - 1]);
        let a = k.address_at(dix(j));
        eq!(hx(a.to_raw_address_bytes()), hx(sk.address_at(&refm::idx(j))), "address");
        eq!(k.diversifier_index(&a).map(|j| *j.as_bytes()), Some(refm::idx(j)), "index");
        let neg = {
            let mut b = a.to_raw_address_bytes();
            b[42] ^= 0x80;
            b
        };
        ensure!(k.diversifier_index(&address(&neg)).is_none(), "the key claims the negated address");
        c.state(a.to_raw_address_bytes());
        c.compared_n(3);
        Ok(())
    });
}

pub fn c16(x: &mut Ctx) {
    let seed = x.seed;
    x.bound(format!("every seed length 32..=252 (and refusal of 43 others) x 6 coin types x 6 accounts; every single bit of coin type and account; every byte of a seed; coin types and accounts at and above 2^31; all pairs of a 12x12 path grid distinct; every seed, coin type and account below {}", x.q(1 << 10, 1 << 14)));
    x.assume("BLAKE2b is trusted; ZIP 32 derivation is specified independently in refm.rs");
    let long: Vec<u8> = (0..4).flat_map(|i| bytes64(seed, "seed", i)).collect();
    let coins = [0u32, 1, 133, 0x7fff_fffe, 0x7fff_ffff, 32];
    let accts = [0u32, 1, 2, 32, 133, 0x7fff_ffff];
    let check = |c: &mut Chooser, s: &[u8], coin: u32, acct: u32| -> Result<[u8; 32], String> {
        let a = zip32::AccountId::try_from(acct).map_err(|_| "account rejected")?;
        let got = SpendingKey::from_zip32_seed(s, coin, a).map_err(|e| format!("derivation failed: {e:?}"))?;
        let want = refm::zip32_sk(s, &[32, coin, acct]).ok_or("reference: invalid")?;
        eq!(hx(got.to_bytes()), hx(want), "account key, seed of {} bytes, coin {coin}, account {acct}", s.len());
        c.state(want);
        c.compared();
        Ok(want)
    };
    let lens: Vec<usize> = (32..=252).collect();
    x.space("lengths", &|c: &mut Chooser| {
        let n = *c.of("seed length", &lens);
        let coin = *c.of("coin", &coins);
        let acct = *c.of("account", &accts);
        check(c, &long[..n], coin, acct).map(|_| ())
    });
    // Every small seed, coin type and account.
    let small = x.q(1usize << 10, 1 << 14);
    x.space("small", &|c: &mut Chooser| {
        let mut s = vec![0u8; 32];
        let (mut coin, mut acct) = (133u32, 0u32);
        let which = c.pick("component", 4);
        let i = c.pick("number", small) as u32;
        match which {
            0 => s[..4].copy_from_slice(&i.to_le_bytes()),
            1 => {
                s = vec![0u8; 64];
                s[60..].copy_from_slice(&i.to_be_bytes());
            }
            2 => coin = i,
            _ => acct = i,
        }
        check(c, &s, coin, acct).map(|_| ())
    });
    x.space("bits", &|c: &mut Chooser| {
        let (mut s, mut coin, mut acct) = (long[..64].to_vec(), 133u32, 7u32);
        let before = refm::zip32_sk(&s, &[32, coin, acct]).unwrap();
        match c.pick("component", 3) {
            0 => {
                let b = c.pick("seed bit", 512);
                s[b / 8] ^= 1 << (b % 8);
            }
            1 => coin ^= 1 << c.pick("coin bit", 31),
            _ => acct ^= 1 << c.pick("account bit", 31),
        }
        let k = check(c, &s, coin, acct)?;
        ensure!(k != before, "changing one bit of the path or seed left the key unchanged");
        Ok(())
    });
    let over: Vec<u32> = (0..31).map(|b| (1u32 << 31) | (1 << b)).chain([1 << 31, u32::MAX, u32::MAX - 1]).collect();
    x.space("out-of-range", &|c: &mut Chooser| {
        let v = *c.of("index", &over);
        let acct = *c.of("account", &accts);
        let a = zip32::AccountId::try_from(acct).unwrap();
        match SpendingKey::from_zip32_seed(&long[..32], v, a) {
            Err(orchard::zip32::Error::InvalidChildIndex(i)) => eq!(i, v, "reported index"),
            Err(e) => return Err(format!("wrong error {e:?} for coin type {v:#x}")),
            Ok(_) => return Err(format!("coin type {v:#x} accepted")),
        }
        ensure!(zip32::AccountId::try_from(v).is_err(), "account {v:#x} accepted");
        c.state(format!("{v} {acct}"));
        c.compared();
        Ok(())
    });
    let bad: Vec<usize> = (0..32).chain(253..=260).chain([511, 512, 1000]).collect();
    x.space("refused lengths", &|c: &mut Chooser| {
        let n = *c.of("seed length", &bad);
        let s: Vec<u8> = long.iter().cycle().take(n).copied().collect();
        let r = std::panic::catch_unwind(|| SpendingKey::from_zip32_seed(&s, 133, zip32::AccountId::ZERO).is_ok());
        ensure!(!matches!(r, Ok(true)), "a seed of {n} bytes gives a key");
        c.state(n.to_string());
        c.compared();
        Ok(())
    });
    let grid: std::sync::OnceLock<Vec<Result<[u8; 32], String>>> = Default::default();
    x.space("distinct", &|c: &mut Chooser| {
        let f = |i: usize| -> u32 { [0, 1, 2, 3, 31, 32, 33, 133, 255, 256, 1 << 30, (1u32 << 31) - 1][i] };
        let (a, b) = (c.pick("coin a", 12), c.pick("account a", 12));
        let (d, e) = (c.pick("coin b", 12), c.pick("account b", 12));
        if (d, e) <= (a, b) {
            return Ok(());
        }
        let grid = grid.get_or_init(|| {
            (0..144)
                .map(|i| {
                    SpendingKey::from_zip32_seed(&long[..32], f(i / 12), zip32::AccountId::try_from(f(i % 12)).unwrap())
                        .map(|s| *s.to_bytes())
                        .map_err(|e| format!("{e:?}"))
                })
                .collect()
        });
        let g = |co: usize, ac: usize| grid[co * 12 + ac].clone();
        ensure!(g(a, b)? != g(d, e)?, "paths {:?} and {:?} give the same key", (f(a), f(b)), (f(d), f(e)));
        c.state(format!("{a} {b} {d} {e}"));
        c.compared();
        Ok(())
    });
}
