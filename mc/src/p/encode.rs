//! C17: encodings.

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use group::GroupEncoding;
use orchard::{
    bundle::Flags,
    keys::*,
    note::*,
    note_encryption::OrchardDomain,
    primitives::redpallas::{self, Binding, SpendAuth},
    tree::MerkleHashOrchard,
    value::*,
    Address, Anchor,
};
use std::cmp::Ordering;
use zcash_note_encryption::{Domain, EphemeralKeyBytes};

// Moduli of the Pallas base field and of the Pallas scalar field, little-endian.
const P: &str = "01000000ed302d991bf94c09fc98462200000000000000000000000000000040";
const Q: &str = "0100000021eb468cdda89409fc98462200000000000000000000000000000040";

fn modulus(s: &str) -> [u8; 32] {
    hex::decode(s).unwrap().try_into().unwrap()
}
fn cmp_le(a: &[u8; 32], b: &[u8; 32]) -> Ordering {
    a.iter().rev().cmp(b.iter().rev())
}
fn add(a: &[u8; 32], k: i32) -> [u8; 32] {
    let mut r = *a;
    let mut carry = k;
    for x in r.iter_mut() {
        let t = *x as i32 + carry;
        *x = t.rem_euclid(256) as u8;
        carry = t.div_euclid(256);
    }
    r
}
fn is_base(b: &[u8; 32]) -> bool {
    cmp_le(b, &modulus(P)) == Ordering::Less
}
fn is_scalar(b: &[u8; 32]) -> bool {
    cmp_le(b, &modulus(Q)) == Ordering::Less
}
/// Valid point encoding: `Some(true)` for the identity.
fn is_point(b: &[u8; 32]) -> Option<bool> {
    if *b == [0; 32] {
        return Some(true);
    }
    let mut x = *b;
    x[31] &= 0x7f;
    if !is_base(&x) {
        return None;
    }
    let x: Base = Option::from(Base::from_repr(x))?;
    let y2 = x * x * x + Base::from(5);
    Option::<Base>::from(y2.sqrt()).map(|_| false)
}

/// 32-byte strings: everything within a few units of the moduli and their multiples, single
/// bits, fills, small numbers, valid and near-valid points and field elements.
pub fn strings(seed: u64, rnd: u64, wide: bool) -> Vec<[u8; 32]> {
    let mut v: Vec<[u8; 32]> = vec![];
    let (p, q) = (modulus(P), modulus(Q));
    let span = if wide { 40 } else { 4 };
    for k in -span..=span {
        for base in [&p, &q] {
            v.push(add(base, k));
            let mut s = add(base, k);
            s[31] |= 0x80; // sign bit set
            v.push(s);
            // twice and three times the modulus
            for m in 2..=3u32 {
                let mut t = [0u8; 32];
                let mut carry = 0u32;
                for i in 0..32 {
                    let w = base[i] as u32 * m + carry;
                    t[i] = w as u8;
                    carry = w >> 8;
                }
                v.push(add(&t, k));
            }
        }
        v.push(add(&[0; 32], k));
        let mut s = [0u8; 32];
        s[31] = 0x80;
        v.push(add(&s, k));
        let mut s = [0u8; 32];
        s[31] = 0x40;
        v.push(add(&s, k));
    }
    for b in 0..256 {
        let mut s = [0u8; 32];
        s[b / 8] = 1 << (b % 8);
        v.push(s);
        let mut s = [0xffu8; 32];
        s[b / 8] ^= 1 << (b % 8);
        v.push(s);
        if wide {
            for q in [p, q] {
                let mut s = q;
                s[b / 8] ^= 1 << (b % 8);
                v.push(s);
            }
        }
    }
    for f in 0..=255u8 {
        v.push([f; 32]);
    }
    for i in 0..rnd {
        let pt = (refm::spend_auth_g() * rscalar(seed, "pt", i)).to_bytes();
        let mut neg = pt;
        neg[31] ^= 0x80;
        v.push(pt);
        v.push(neg);
        for b in [0usize, 7, 100, 200, 253, 254, 255] {
            let mut s = pt;
            s[b / 8] ^= 1 << (b % 8);
            v.push(s);
        }
        v.push(rbase(seed, "el", i).to_repr());
        v.push(rscalar(seed, "sc", i).to_repr());
        v.push(bytes32(seed, "raw", i));
    }
    // the points with the smallest x
    let mut found = 0;
    for k in 1..64u64 {
        let b = Base::from(k).to_repr();
        if is_point(&b).is_some() {
            found += 1;
            v.push(b);
            let mut n = b;
            n[31] |= 0x80;
            v.push(n);
        }
    }
    assert!(found > 5);
    v.sort();
    v.dedup();
    v
}

fn o<T>(x: subtle::CtOption<T>) -> Option<T> {
    Option::from(x)
}

/// (name, encoder after parsing, is the string valid)
type Codec = (&'static str, fn(&[u8; 32]) -> Option<[u8; 32]>, fn(&[u8; 32]) -> bool);

fn codecs() -> Vec<Codec> {
    vec![
        ("nullifier", |b| o(Nullifier::from_bytes(b)).map(|x| x.to_bytes()), is_base),
        ("note commitment", |b| o(ExtractedNoteCommitment::from_bytes(b)).map(|x| x.to_bytes()), is_base),
        ("note commitment (by reference)", |b| o(ExtractedNoteCommitment::from_bytes(b)).map(|x| <[u8; 32]>::from(&x)), is_base),
        ("rho", |b| o(Rho::from_bytes(b)).map(|x| x.to_bytes()), is_base),
        ("anchor", |b| o(Anchor::from_bytes(*b)).map(|x| x.to_bytes()), is_base),
        ("tree node", |b| o(MerkleHashOrchard::from_bytes(b)).map(|x| x.to_bytes()), is_base),
        ("tree node (as leaf)", |b| {
            o(ExtractedNoteCommitment::from_bytes(b)).map(|x| MerkleHashOrchard::from_cmx(&x).to_bytes())
        }, is_base),
        ("anchor (of node)", |b| o(MerkleHashOrchard::from_bytes(b)).map(|x| Anchor::from(x).to_bytes()), is_base),
        ("tree node (serde)", |b| {
            let t = serde_json::to_string(b).unwrap();
            let n: MerkleHashOrchard = serde_json::from_str(&t).ok()?;
            let back = serde_json::to_string(&n).ok()?;
            serde_json::from_str(&back).ok()
        }, is_base),
        ("value commitment", |b| o(ValueCommitment::from_bytes(b)).map(|x| x.to_bytes()), |b| is_point(b).is_some()),
        ("spend validating key", |b| SpendValidatingKey::from_bytes(&b[..]).map(|x| x.to_bytes()), |b| {
            is_point(b) == Some(false) && b[31] & 0x80 == 0
        }),
        ("spend authorization verification key", |b| {
            redpallas::VerificationKey::<SpendAuth>::try_from(*b).ok().map(|x| (&x).into())
        }, |b| is_point(b).is_some()),
        ("binding verification key", |b| {
            redpallas::VerificationKey::<Binding>::try_from(*b).ok().map(|x| (&x).into())
        }, |b| is_point(b).is_some()),
        ("spend authorization signing key", |b| {
            redpallas::SigningKey::<SpendAuth>::try_from(*b).ok().map(|x| (&x).into())
        }, is_scalar),
        ("binding signing key", |b| redpallas::SigningKey::<Binding>::try_from(*b).ok().map(|x| (&x).into()), is_scalar),
        ("binding signing key, consumed", |b| redpallas::SigningKey::<Binding>::try_from(*b).ok().map(|x| x.into()), is_scalar),
        ("outgoing viewing key", |b| Some(*OutgoingViewingKey::from(*b).as_ref()), |_| true),
        ("ephemeral public key", |b| {
            <OrchardDomain as Domain>::epk(&EphemeralKeyBytes(*b)).map(|e| <OrchardDomain as Domain>::epk_bytes(&e).0)
        }, |b| is_point(b) == Some(false)),
        ("diversified transmission key", |b| {
            let mut a = [0x5a; 43];
            a[11..].copy_from_slice(b);
            o(Address::from_raw_address_bytes(&a)).map(|x| x.to_raw_address_bytes()[11..].try_into().unwrap())
        }, |b| is_point(b) == Some(false)),
        ("incoming viewing key", |b| {
            let mut k = [0xa5; 64];
            k[32..].copy_from_slice(b);
            let x: IncomingViewingKey = o(IncomingViewingKey::from_bytes(&k))?;
            let y = x.to_bytes();
            (y[..32] == [0xa5; 32]).then(|| y[32..].try_into().unwrap())
        }, |b| is_base(b) && *b != [0; 32]),
        ("incoming viewing key (diversifier key)", |b| {
            let mut k = [0; 64];
            k[..32].copy_from_slice(b);
            k[32] = 3;
            let x: IncomingViewingKey = o(IncomingViewingKey::from_bytes(&k))?;
            let y = x.to_bytes();
            (y[32..] == k[32..]).then(|| y[..32].try_into().unwrap())
        }, |_| true),
        ("spending key", |b| o(SpendingKey::from_bytes(*b)).map(|x| *x.to_bytes()), |b| refm::keys(b).is_some()),
        ("random seed", |b| {
            let rho = o(Rho::from_bytes(&[1; 32])).unwrap();
            o(RandomSeed::from_bytes(*b, &rho)).map(|x| *x.as_bytes())
        }, |_| true),
    ]
}

pub fn c17(x: &mut Ctx) {
    let seed = x.seed;
    let pool = strings(seed, x.q(12, 200), x.thorough());
    let cs = codecs();
    x.bound(format!("{} codecs x {} 32-byte strings (all strings within {} of multiples of both moduli, every single bit set or cleared, every fill, points, near-points, signs; every number below {} with either sign, and as many leading parts); all 256 flag bytes; full viewing keys with each component from the same set; all byte lengths 0..=100 for length-checked parsers; 64- and 43-byte encodings; all pairs of accepted encodings of 16 kinds of values for equality", cs.len(), pool.len(), x.q(4, 40), x.q(1 << 10, 1 << 15)));
    x.assume("validity is decided by integer comparison with the moduli and by the curve equation, independently of the parsers; RedDSA encodings are those of the reddsa dependency");
    x.space("components", &|c: &mut Chooser| {
        let (name, enc, valid) = c.of("codec", &cs);
        let b = c.of("string", &pool);
        let got = enc(b);
        let want = valid(b).then(|| *b);
        eq!(got.map(hx), want.map(hx), "{name}: parse then serialize of {}", hx(b));
        c.state([name.as_bytes(), &b[..]].concat());
        c.outcome(format!("{name}: {}", if want.is_some() { "accepted" } else { "rejected" }));
        c.compared();
        Ok(())
    });
    // Every small number, and every leading part of a string.
    let small = x.q(1usize << 10, 1 << 15);
    let rest = bytes32(seed, "rest", 0);
    x.space("small and leading", &|c: &mut Chooser| {
        let (name, enc, valid) = c.of("codec", &cs);
        let i = c.pick("number", small);
        let b = match c.pick("form", 3) {
            0 => add(&[0; 32], i as i32),
            1 => {
                let mut b = add(&[0; 32], i as i32);
                b[31] |= 0x80;
                b
            }
            _ => {
                let mut b = rest;
                b[30..].copy_from_slice(&((i * (65536 / small)) as u16).to_le_bytes());
                b
            }
        };
        eq!(enc(&b).map(hx), valid(&b).then(|| hx(b)), "{name}: parse then serialize of {}", hx(b));
        c.state([name.as_bytes(), &b[..]].concat());
        c.compared();
        Ok(())
    });
    x.space("trapdoor", &|c: &mut Chooser| {
        let b = c.of("string", &pool);
        // No serializer: observe the parsed value through the commitment.
        let t = o(ValueCommitTrapdoor::from_bytes(*b));
        eq!(t.is_some(), is_scalar(b), "value commitment trapdoor {}", hx(b));
        if let Some(t) = t {
            let cv = ValueCommitment::derive(NoteValue::from_raw(0) - NoteValue::from_raw(0), t);
            let want = refm::value_r() * refm::scalar(b).unwrap();
            eq!(hx(cv.to_bytes()), hx(want.to_bytes()), "trapdoor {}", hx(b));
        }
        c.state(b);
        c.compared();
        Ok(())
    });
    x.space("flags", &|c: &mut Chooser| {
        let b = c.pick("byte", 256) as u8;
        let f = Flags::from_byte(b);
        eq!(f.is_some(), b & 0xfc == 0, "flag byte {b:#x} accepted");
        if let Some(f) = f {
            eq!(f.to_byte(), b, "flag byte written");
            eq!(f.spends_enabled(), b & 1 != 0, "spends enabled, {b:#x}");
            eq!(f.outputs_enabled(), b & 2 != 0, "outputs enabled, {b:#x}");
        }
        for (k, fl) in [(3u8, Flags::ENABLED), (2, Flags::SPENDS_DISABLED), (1, Flags::OUTPUTS_DISABLED)] {
            eq!(f == Some(fl), b == k, "named flags");
            eq!(fl.to_byte(), k, "named flags' byte");
        }
        c.state([b]);
        c.compared_n(4);
        Ok(())
    });
    // Full viewing keys: one component at a time from the pool, the others fixed and valid.
    let k = Key::new(seed, 3);
    let fvkb = k.r.fvk_bytes();
    x.space("full-viewing-key", &|c: &mut Chooser| {
        let part = c.pick("component", 3);
        let b = c.of("string", &pool);
        let mut e = fvkb;
        e[part * 32..part * 32 + 32].copy_from_slice(b);
        let valid = match part {
            0 => is_point(b) == Some(false) && b[31] & 0x80 == 0,
            1 => is_base(b),
            _ => is_scalar(b),
        };
        // Bottom of Commit^ivk or ivk = 0 is the only other reason for rejection.
        let valid = valid && refm::parse_fvk(&e).is_some();
        let got = FullViewingKey::from_bytes(&e);
        eq!(got.as_ref().map(|f| hx(f.to_bytes())), valid.then(|| hx(e)), "full viewing key component {part} = {}", hx(b));
        let rd = FullViewingKey::read(&e[..]);
        eq!(rd.ok().map(|f| hx(f.to_bytes())), valid.then(|| hx(e)), "full viewing key read, component {part} = {}", hx(b));
        if let Some(f) = got {
            eq!(hx(SpendValidatingKey::from(f).to_bytes()), hx(&e[..32]), "ak of the viewing key");
        }
        c.state(e);
        c.outcome(format!("{part}: {}", if valid { "accepted" } else { "rejected" }));
        c.compared_n(2);
        Ok(())
    });
    x.space("addresses", &|c: &mut Chooser| {
        let mut a = k.addr(false, 5);
        match c.pick("part", 3) {
            0 => {
                let i = c.pick("diversifier byte", 11);
                a[i] = *c.of("value", &[0u8, 1, 0x7f, 0x80, 0xff]);
            }
            1 => {
                let d = *c.of("fill", &[0u8, 0xff]);
                a[..11].copy_from_slice(&[d; 11]);
                a[42] ^= (c.pick("sign", 2) as u8) << 7;
            }
            _ => {
                let b = c.pick("pk_d bit", 256);
                a[11 + b / 8] ^= 1 << (b % 8);
            }
        }
        let pk: [u8; 32] = a[11..].try_into().unwrap();
        let valid = is_point(&pk) == Some(false);
        let got: Option<Address> = o(Address::from_raw_address_bytes(&a));
        eq!(got.map(|x| hx(x.to_raw_address_bytes())), valid.then(|| hx(a)), "address {}", hx(a));
        if let Some(x) = got {
            eq!(hx(x.diversifier().as_array()), hx(&a[..11]), "diversifier");
            eq!(hx(Diversifier::from_bytes(a[..11].try_into().unwrap()).as_array()), hx(&a[..11]), "diversifier bytes");
        }
        c.state(a);
        c.compared_n(2);
        Ok(())
    });
    x.space("lengths", &|c: &mut Chooser| {
        let n = c.pick("length", 101);
        match c.pick("parser", 2) {
            0 => {
                let mut b = vec![0u8; n];
                let ak = SpendValidatingKey::from(k.fvk.clone()).to_bytes();
                for (x, y) in b.iter_mut().zip(ak.iter().chain(std::iter::repeat(&0))) {
                    *x = *y;
                }
                eq!(SpendValidatingKey::from_bytes(&b).is_some(), n == 32, "spend validating key of {n} bytes");
            }
            _ => {
                let mut b = fvkb.to_vec();
                b.extend_from_slice(&[0xee; 10]);
                b.truncate(n);
                let mut s = &b[..];
                let r = FullViewingKey::read(&mut s);
                eq!(r.is_ok(), n >= 96, "full viewing key read from {n} bytes");
                if n >= 96 {
                    eq!(s.len(), n - 96, "bytes left after reading a full viewing key");
                }
                // A reader that delivers in pieces.
                struct Dribble<'a>(&'a [u8]);
                impl<'a> std::io::Read for Dribble<'a> {
                    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
                        let k = o.len().min(self.0.len()).min(1);
                        o[..k].copy_from_slice(&self.0[..k]);
                        self.0 = &self.0[k..];
                        Ok(k)
                    }
                }
                eq!(FullViewingKey::read(Dribble(&b)).is_ok(), n >= 96, "full viewing key read in pieces from {n} bytes");
                // A writer that accepts n bytes and fails afterwards.
                struct Full(usize, Vec<u8>);
                impl std::io::Write for Full {
                    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                        let k = b.len().min(self.0);
                        if k == 0 && !b.is_empty() {
                            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
                        }
                        self.0 -= k;
                        self.1.extend_from_slice(&b[..k]);
                        Ok(k)
                    }
                    fn flush(&mut self) -> std::io::Result<()> {
                        Ok(())
                    }
                }
                let mut w = Full(n, vec![]);
                eq!(k.fvk.write(&mut w).is_ok(), n >= 96, "full viewing key written to {n} bytes");
                if n >= 96 {
                    eq!(hx(&w.1), hx(fvkb), "written bytes");
                }
            }
        }
        c.state([n as u8]);
        c.compared();
        Ok(())
    });
    // Signatures are opaque 64-byte strings.
    x.space("signatures", &|c: &mut Chooser| {
        let b = c.pick("bit", 513);
        let mut s = bytes64(seed, "sig", 1);
        if b < 512 {
            s[b / 8] ^= 1 << (b % 8);
        } else {
            s = [0xff; 64];
        }
        let a = redpallas::Signature::<SpendAuth>::from(s);
        let z = redpallas::Signature::<Binding>::from(s);
        eq!(hx(<[u8; 64]>::from(&a)), hx(s), "signature bytes");
        eq!(hx(<[u8; 64]>::from(&z)), hx(s), "signature bytes");
        c.state(s);
        c.compared_n(2);
        Ok(())
    });
    // Equality of values is equality of encodings.
    let small: Vec<[u8; 32]> = {
        let mut v: Vec<[u8; 32]> = pool.iter().copied().filter(|b| is_base(b)).collect();
        let step = (v.len() / x.q(24, 60)).max(1);
        v = v.into_iter().step_by(step).collect();
        for k in 0..8 {
            v.push(Base::from(k).to_repr());
            v.push((-Base::from(k + 1)).to_repr());
            let mut s = rbase(seed, "el", 0).to_repr();
            s[31 - k as usize] ^= 1;
            v.push(s);
        }
        v.push(rbase(seed, "el", 0).to_repr());
        for k in 0..32 {
            let mut s = rbase(seed, "el", 0).to_repr();
            s[k] ^= if k % 2 == 0 { 0x10 } else { 1 };
            v.push(s);
        }
        v.retain(is_base);
        v.sort();
        v.dedup();
        v
    };
    let pts: Vec<[u8; 32]> = pool.iter().copied().filter(|b| is_point(b) == Some(false)).step_by(7).take(x.q(20, 60)).collect();
    // Points whose encodings differ in one byte only.
    let near: Vec<Vec<[u8; 32]>> = (0..32usize)
        .map(|k| {
            let b = pts[k % pts.len()];
            (0..=255u8).map(|v| { let mut r = b; r[k] = v; r }).filter(|r| is_point(r) == Some(false)).take(4).collect()
        })
        .chain([pts.clone()])
        .collect();
    x.space("equality", &|c: &mut Chooser| {
        let kind = c.pick("type", 10);
        let pts = if kind >= 6 { c.of("points", &near) } else { &pts };
        if kind == 9 {
            // A point and its negation share all but one bit of the encoding.
            let (a, b) = (*c.of("a", pts), *c.of("b", pts));
            let (a, b) = if c.flag("negated") { let mut n = b; n[31] ^= 0x80; (b, n) } else { (a, b) };
            let v = |x: &[u8; 32]| -> redpallas::VerificationKey<redpallas::SpendAuth> { (*x).try_into().unwrap() };
            eq!(v(&a) == v(&b), a == b, "equality of verification keys {} and {}", hx(a), hx(b));
            eq!(v(&a).partial_cmp(&v(&b)), Some(a.cmp(&b)), "partial order of verification keys {} and {}", hx(a), hx(b));
            eq!((v(&a) < v(&b), v(&a) >= v(&b)), (a < b, a >= b), "comparison of verification keys {} and {}", hx(a), hx(b));
            eq!(v(&a).cmp(&v(&b)), a.cmp(&b), "order of verification keys {} and {}", hx(a), hx(b));
            let w = |x: &[u8; 32]| o(ValueCommitment::from_bytes(x)).unwrap();
            eq!(w(&a).to_bytes() == w(&b).to_bytes(), a == b, "value commitments {} and {}", hx(a), hx(b));
            c.state([&[9], &a[..], &b[..]].concat());
        } else if kind < 6 {
            let (a, b) = (*c.of("a", &small), *c.of("b", &small));
            let want = a == b;
            let got = match kind {
                0 => o(Nullifier::from_bytes(&a)) == o(Nullifier::from_bytes(&b)),
                1 => o(ExtractedNoteCommitment::from_bytes(&a)) == o(ExtractedNoteCommitment::from_bytes(&b)),
                2 => o(Rho::from_bytes(&a)) == o(Rho::from_bytes(&b)),
                3 => o(Anchor::from_bytes(a)) == o(Anchor::from_bytes(b)),
                4 => o(MerkleHashOrchard::from_bytes(&a)) == o(MerkleHashOrchard::from_bytes(&b)),
                _ => {
                    use subtle::ConstantTimeEq;
                    let (x, y) = (o(Nullifier::from_bytes(&a)).unwrap(), o(Nullifier::from_bytes(&b)).unwrap());
                    x.ct_eq(&y).into()
                }
            };
            eq!(got, want, "equality of {} and {}, type {kind}", hx(a), hx(b));
            c.state([&[kind as u8], &a[..], &b[..]].concat());
        } else {
            let (a, b) = (*c.of("a", pts), *c.of("b", pts));
            let same = a == b;
            let got = match kind {
                6 => {
                    let f = |x: &[u8; 32]| {
                        let mut r = [3u8; 43];
                        r[11..].copy_from_slice(x);
                        address(&r)
                    };
                    f(&a) == f(&b)
                }
                7 => {
                    let f = |x: &[u8; 32]| {
                        let mut x = *x;
                        x[31] &= 0x7f;
                        SpendValidatingKey::from_bytes(&x[..]).unwrap()
                    };
                    let (p, q) = (f(&a), f(&b));
                    eq!(p == q, p.to_bytes() == q.to_bytes(), "equality of validating keys");
                    same
                }
                _ => {
                    let f = |d: u8, x: &[u8; 32]| {
                        let mut r = [d; 43];
                        r[11..].copy_from_slice(x);
                        address(&r)
                    };
                    ensure!(f(1, &a) != f(2, &b), "addresses with different diversifiers are equal");
                    same
                }
            };
            eq!(got, same, "equality of {} and {}, type {kind}", hx(a), hx(b));
            c.state([&[kind as u8], &a[..], &b[..]].concat());
        }
        c.compared();
        Ok(())
    });
    let fv: Vec<[u8; 96]> = (0..4)
        .flat_map(|i| {
            let b = Key::new(seed, i).r.fvk_bytes();
            let o = Key::new(seed, i + 10).r.fvk_bytes();
            (0..8).map(move |m| {
                let mut r = b;
                for k in 0..3 {
                    if m >> k & 1 == 1 {
                        r[k * 32..k * 32 + 32].copy_from_slice(&o[k * 32..k * 32 + 32]);
                    }
                }
                r
            })
        })
        .collect();
    x.space("viewing-key-equality", &|c: &mut Chooser| {
        let (a, b) = (*c.of("a", &fv), *c.of("b", &fv));
        let (x, y) = (FullViewingKey::from_bytes(&a).unwrap(), FullViewingKey::from_bytes(&b).unwrap());
        eq!(x == y, a == b, "equality of viewing keys");
        let s = scope(c.flag("internal"));
        eq!(x.to_ivk(s) == y.to_ivk(s), x.to_ivk(s).to_bytes() == y.to_ivk(s).to_bytes(), "equality of incoming keys");
        c.state([&a[..], &b[..]].concat());
        c.compared_n(2);
        Ok(())
    });
    let _ = Scalar::zero();
}
