//! Reference model of the Orchard protocol, written from the protocol specification
//! (NU5, ZIP 32, ZIP 212, ZIP 244, ZIP 316) and independent of the code under test.
//! Field, curve, hash-to-curve, Poseidon, BLAKE2b, AES, FF1 and ChaCha20Poly1305 come from
//! the dependencies; everything Orchard-specific is written out here.
#![allow(non_snake_case)]

use std::sync::OnceLock;

use blake2b_simd::Params as B2;
use chacha20poly1305::{aead::AeadInPlace, ChaCha20Poly1305, KeyInit};
use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits};
use fpe::ff1::{BinaryNumeralString, FF1};
use group::{Curve, Group, GroupEncoding};
use halo2_gadgets::poseidon::primitives as poseidon;
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas;

pub type Base = pallas::Base;
pub type Scalar = pallas::Scalar;
pub type Point = pallas::Point;

// ---------------------------------------------------------------- hashing helpers

pub fn b2_512(personal: &[u8], parts: &[&[u8]]) -> [u8; 64] {
    let mut s = B2::new().hash_length(64).personal(personal).to_state();
    for p in parts {
        s.update(p);
    }
    s.finalize().as_bytes().try_into().unwrap()
}
pub fn b2_256(personal: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut s = B2::new().hash_length(32).personal(personal).to_state();
    for p in parts {
        s.update(p);
    }
    s.finalize().as_bytes().try_into().unwrap()
}
pub fn prf_expand(sk: &[u8], parts: &[&[u8]]) -> [u8; 64] {
    let mut v: Vec<&[u8]> = vec![sk];
    v.extend_from_slice(parts);
    b2_512(b"Zcash_ExpandSeed", &v)
}
pub fn to_base(x: &[u8; 64]) -> Base {
    Base::from_uniform_bytes(x)
}
pub fn to_scalar(x: &[u8; 64]) -> Scalar {
    Scalar::from_uniform_bytes(x)
}
pub fn base_as_scalar(x: &Base) -> Scalar {
    Scalar::from_repr(x.to_repr()).unwrap()
}
pub fn extract(p: &Point) -> Base {
    let a = p.to_affine();
    let c = a.coordinates();
    if bool::from(c.is_some()) {
        *c.unwrap().x()
    } else {
        Base::zero()
    }
}
pub fn xy(p: &Point) -> (Base, Base) {
    let c = p.to_affine().coordinates();
    if bool::from(c.is_some()) {
        let c = c.unwrap();
        (*c.x(), *c.y())
    } else {
        (Base::zero(), Base::zero())
    }
}
pub fn group_hash(d: &str, m: &[u8]) -> Point {
    Point::hash_to_curve(d)(m)
}
pub fn pt(b: &[u8; 32]) -> Option<Point> {
    let r = Point::from_bytes(b);
    if bool::from(r.is_some()) {
        Some(r.unwrap())
    } else {
        None
    }
}
pub fn base(b: &[u8; 32]) -> Option<Base> {
    Option::from(Base::from_repr(*b))
}
pub fn scalar(b: &[u8; 32]) -> Option<Scalar> {
    Option::from(Scalar::from_repr(*b))
}

macro_rules! fixed {
    ($name:ident, $e:expr) => {
        pub fn $name() -> Point {
            static C: OnceLock<Point> = OnceLock::new();
            *C.get_or_init(|| $e)
        }
    };
}
fixed!(spend_auth_g, group_hash("z.cash:Orchard", b"G"));
fixed!(nullifier_k, group_hash("z.cash:Orchard", b"K"));
fixed!(value_v, group_hash("z.cash:Orchard-cv", b"v"));
fixed!(value_r, group_hash("z.cash:Orchard-cv", b"r"));

// ---------------------------------------------------------------- Sinsemilla

fn sinsemilla_s() -> &'static Vec<pallas::Affine> {
    static C: OnceLock<Vec<pallas::Affine>> = OnceLock::new();
    C.get_or_init(|| {
        let h = Point::hash_to_curve("z.cash:SinsemillaS");
        (0u32..1024).map(|j| h(&j.to_le_bytes()).to_affine()).collect()
    })
}

pub struct Sinsemilla {
    q: Point,
    r: Point,
}
fn sinsemilla_domain(hash_d: &str, r_d: Option<&str>) -> Sinsemilla {
    Sinsemilla {
        q: group_hash("z.cash:SinsemillaQ", hash_d.as_bytes()),
        r: r_d.map(|d| group_hash(d, b"")).unwrap_or_else(Point::identity),
    }
}

fn is_incomplete(a: &Point, b: &Point) -> bool {
    bool::from(a.is_identity()) || bool::from(b.is_identity()) || a == b || *a == -*b
}

impl Sinsemilla {
    pub fn hash_to_point(&self, bits: &[bool]) -> Option<Point> {
        let mut padded = bits.to_vec();
        while padded.len() % 10 != 0 {
            padded.push(false);
        }
        let mut acc = self.q;
        for c in padded.chunks(10) {
            let j = c.iter().enumerate().fold(0usize, |a, (i, b)| a + ((*b as usize) << i));
            let s = Point::from(sinsemilla_s()[j]);
            if is_incomplete(&acc, &s) {
                return None;
            }
            let t = acc + s;
            if is_incomplete(&t, &acc) {
                return None;
            }
            acc = t + acc;
        }
        Some(acc)
    }
    pub fn commit(&self, bits: &[bool], r: &Scalar) -> Option<Point> {
        self.hash_to_point(bits).map(|p| p + self.r * r)
    }
}
fn dom(which: u8) -> &'static Sinsemilla {
    static A: OnceLock<Sinsemilla> = OnceLock::new();
    static B: OnceLock<Sinsemilla> = OnceLock::new();
    static C: OnceLock<Sinsemilla> = OnceLock::new();
    match which {
        0 => A.get_or_init(|| {
            sinsemilla_domain("z.cash:Orchard-NoteCommit-M", Some("z.cash:Orchard-NoteCommit-r"))
        }),
        1 => B.get_or_init(|| {
            sinsemilla_domain("z.cash:Orchard-CommitIvk-M", Some("z.cash:Orchard-CommitIvk-r"))
        }),
        _ => C.get_or_init(|| sinsemilla_domain("z.cash:Orchard-MerkleCRH", None)),
    }
}
pub fn byte_bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1 == 1)).collect()
}
fn base_bits(x: &Base) -> Vec<bool> {
    x.to_le_bits().iter().by_vals().take(255).collect()
}

// ---------------------------------------------------------------- Merkle tree

pub fn merkle_combine(level: u8, l: &Base, r: &Base) -> Base {
    let mut bits: Vec<bool> = (0..10).map(|i| (level as u32 >> i) & 1 == 1).collect();
    bits.extend(base_bits(l));
    bits.extend(base_bits(r));
    dom(2).hash_to_point(&bits).map(|p| extract(&p)).unwrap_or_else(Base::zero)
}
pub fn empty_leaf() -> Base {
    Base::from(2)
}
pub fn empty_roots() -> &'static Vec<Base> {
    static C: OnceLock<Vec<Base>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![empty_leaf()];
        for l in 0..32u8 {
            let p = *v.last().unwrap();
            v.push(merkle_combine(l, &p, &p));
        }
        v
    })
}
pub fn merkle_root(leaf: &Base, pos: u32, path: &[Base; 32]) -> Base {
    let mut n = *leaf;
    for l in 0..32 {
        n = if (pos >> l) & 1 == 0 {
            merkle_combine(l as u8, &n, &path[l])
        } else {
            merkle_combine(l as u8, &path[l], &n)
        };
    }
    n
}
/// Root of the depth-32 tree whose first leaves are `leaves`, and the authentication path
/// of every one of them.
pub fn tree(leaves: &[Base]) -> (Base, Vec<[Base; 32]>) {
    let mut paths = vec![[Base::zero(); 32]; leaves.len()];
    let mut layer = leaves.to_vec();
    for l in 0..32usize {
        let empty = empty_roots()[l];
        for (i, p) in paths.iter_mut().enumerate() {
            let sib = (i >> l) ^ 1;
            p[l] = layer.get(sib).copied().unwrap_or(empty);
        }
        let n = (layer.len() + 1) / 2;
        layer = (0..n)
            .map(|i| {
                let a = layer.get(2 * i).copied().unwrap_or(empty);
                let b = layer.get(2 * i + 1).copied().unwrap_or(empty);
                merkle_combine(l as u8, &a, &b)
            })
            .collect();
    }
    (layer.first().copied().unwrap_or(empty_roots()[32]), paths)
}

// ---------------------------------------------------------------- keys

#[derive(Clone, Debug, PartialEq)]
pub struct ScopeKeys {
    pub rivk: Scalar,
    pub ivk: Base,
    pub dk: [u8; 32],
    pub ovk: [u8; 32],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Keys {
    pub sk: [u8; 32],
    pub ask: Scalar,
    pub ak: [u8; 32],
    pub ak_flipped: bool,
    pub nk: Base,
    pub ext: ScopeKeys,
    pub int: ScopeKeys,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fvk {
    pub ak: [u8; 32],
    pub nk: Base,
    pub rivk: Scalar,
}
pub fn commit_ivk(ak: &[u8; 32], nk: &Base, rivk: &Scalar) -> Option<Base> {
    let ak = base(ak)?;
    let mut bits = base_bits(&ak);
    bits.extend(base_bits(nk));
    let p = dom(1).commit(&bits, rivk)?;
    let x = extract(&p);
    if bool::from(x.is_zero()) {
        None
    } else {
        Some(x)
    }
}
pub fn scope_keys(fvk: &Fvk) -> Option<ScopeKeys> {
    let ivk = commit_ivk(&fvk.ak, &fvk.nk, &fvk.rivk)?;
    let r = prf_expand(&fvk.rivk.to_repr(), &[&[0x82], &fvk.ak, &fvk.nk.to_repr()]);
    Some(ScopeKeys {
        rivk: fvk.rivk,
        ivk,
        dk: r[..32].try_into().unwrap(),
        ovk: r[32..].try_into().unwrap(),
    })
}
pub fn internal_fvk(fvk: &Fvk) -> Fvk {
    let r = prf_expand(&fvk.rivk.to_repr(), &[&[0x83], &fvk.ak, &fvk.nk.to_repr()]);
    Fvk { ak: fvk.ak, nk: fvk.nk, rivk: to_scalar(&r) }
}
pub fn keys(sk: &[u8; 32]) -> Option<Keys> {
    let ask = to_scalar(&prf_expand(sk, &[&[0x06]]));
    if bool::from(ask.is_zero()) {
        return None;
    }
    let akp = (spend_auth_g() * ask).to_bytes();
    let flipped = akp[31] & 0x80 != 0;
    let ask = if flipped { -ask } else { ask };
    let mut ak = akp;
    ak[31] &= 0x7f;
    let nk = to_base(&prf_expand(sk, &[&[0x07]]));
    let rivk = to_scalar(&prf_expand(sk, &[&[0x08]]));
    let fvk = Fvk { ak, nk, rivk };
    Some(Keys {
        sk: *sk,
        ask,
        ak,
        ak_flipped: flipped,
        nk,
        ext: scope_keys(&fvk)?,
        int: scope_keys(&internal_fvk(&fvk))?,
    })
}
impl Keys {
    pub fn fvk(&self) -> Fvk {
        Fvk { ak: self.ak, nk: self.nk, rivk: self.ext.rivk }
    }
    pub fn fvk_bytes(&self) -> [u8; 96] {
        fvk_bytes(&self.fvk())
    }
    pub fn scope(&self, internal: bool) -> &ScopeKeys {
        if internal {
            &self.int
        } else {
            &self.ext
        }
    }
}
pub fn fvk_bytes(f: &Fvk) -> [u8; 96] {
    let mut r = [0; 96];
    r[..32].copy_from_slice(&f.ak);
    r[32..64].copy_from_slice(&f.nk.to_repr());
    r[64..].copy_from_slice(&f.rivk.to_repr());
    r
}
/// `None` when the 96 bytes are not the encoding of a valid full viewing key.
pub fn parse_fvk(b: &[u8; 96]) -> Option<Fvk> {
    let ak: [u8; 32] = b[..32].try_into().unwrap();
    if ak[31] & 0x80 != 0 || ak == [0; 32] {
        return None;
    }
    pt(&ak)?;
    let nk = base(b[32..64].try_into().unwrap())?;
    let rivk = scalar(b[64..].try_into().unwrap())?;
    let f = Fvk { ak, nk, rivk };
    scope_keys(&f)?;
    scope_keys(&internal_fvk(&f))?;
    Some(f)
}
impl ScopeKeys {
    pub fn ivk_bytes(&self) -> [u8; 64] {
        let mut r = [0; 64];
        r[..32].copy_from_slice(&self.dk);
        r[32..].copy_from_slice(&self.ivk.to_repr());
        r
    }
    pub fn diversifier(&self, j: &[u8; 11]) -> [u8; 11] {
        let ff = FF1::<aes::Aes256>::new(&self.dk, 2).unwrap();
        ff.encrypt(&[], &BinaryNumeralString::from_bytes_le(j))
            .unwrap()
            .to_bytes_le()
            .try_into()
            .unwrap()
    }
    pub fn index(&self, d: &[u8; 11]) -> [u8; 11] {
        let ff = FF1::<aes::Aes256>::new(&self.dk, 2).unwrap();
        ff.decrypt(&[], &BinaryNumeralString::from_bytes_le(d))
            .unwrap()
            .to_bytes_le()
            .try_into()
            .unwrap()
    }
    pub fn pk_d(&self, d: &[u8; 11]) -> [u8; 32] {
        (g_d(d) * base_as_scalar(&self.ivk)).to_bytes()
    }
    pub fn address(&self, d: &[u8; 11]) -> [u8; 43] {
        let mut r = [0; 43];
        r[..11].copy_from_slice(d);
        r[11..].copy_from_slice(&self.pk_d(d));
        r
    }
    pub fn address_at(&self, j: &[u8; 11]) -> [u8; 43] {
        self.address(&self.diversifier(j))
    }
}
pub fn g_d(d: &[u8; 11]) -> Point {
    let p = group_hash("z.cash:Orchard-gd", d);
    if bool::from(p.is_identity()) {
        group_hash("z.cash:Orchard-gd", b"")
    } else {
        p
    }
}
/// Scope (false = external) under which this key owns the address.
pub fn scope_of(fvk: &Fvk, addr: &[u8; 43]) -> Option<bool> {
    let d: [u8; 11] = addr[..11].try_into().unwrap();
    for internal in [false, true] {
        let f = if internal { internal_fvk(fvk) } else { fvk.clone() };
        if let Some(k) = scope_keys(&f) {
            if &k.address(&d) == addr {
                return Some(internal);
            }
        }
    }
    None
}

// ---------------------------------------------------------------- ZIP 32

pub fn zip32_sk(seed: &[u8], path: &[u32]) -> Option<[u8; 32]> {
    let i = b2_512(b"ZcashIP32Orchard", &[seed]);
    let mut sk: [u8; 32] = i[..32].try_into().unwrap();
    let mut c: [u8; 32] = i[32..].try_into().unwrap();
    keys(&sk)?;
    for ix in path {
        let ix = ix | 0x8000_0000;
        let i = prf_expand(&c, &[&[0x81], &sk, &ix.to_le_bytes()]);
        sk = i[..32].try_into().unwrap();
        c = i[32..].try_into().unwrap();
        keys(&sk)?;
    }
    Some(sk)
}

// ---------------------------------------------------------------- notes

#[derive(Clone, Debug, PartialEq)]
pub struct RNote {
    pub addr: [u8; 43],
    pub v: u64,
    pub rho: Base,
    pub rseed: [u8; 32],
}
impl RNote {
    pub fn d(&self) -> [u8; 11] {
        self.addr[..11].try_into().unwrap()
    }
    pub fn pk_d(&self) -> [u8; 32] {
        self.addr[11..].try_into().unwrap()
    }
    pub fn esk(&self) -> Scalar {
        to_scalar(&prf_expand(&self.rseed, &[&[0x04], &self.rho.to_repr()]))
    }
    pub fn rcm(&self) -> Scalar {
        to_scalar(&prf_expand(&self.rseed, &[&[0x05], &self.rho.to_repr()]))
    }
    pub fn psi(&self) -> Base {
        to_base(&prf_expand(&self.rseed, &[&[0x09], &self.rho.to_repr()]))
    }
    pub fn cm(&self) -> Option<Point> {
        note_commit(
            &g_d(&self.d()).to_bytes(),
            &self.pk_d(),
            self.v,
            &self.rho,
            &self.psi(),
            &self.rcm(),
        )
    }
    pub fn cmx(&self) -> Base {
        extract(&self.cm().expect("note has a commitment"))
    }
    pub fn nullifier(&self, nk: &Base) -> Base {
        let k = prf_nf(nk, &self.rho) + self.psi();
        extract(&(nullifier_k() * base_as_scalar(&k) + self.cm().unwrap()))
    }
    pub fn epk(&self) -> [u8; 32] {
        (g_d(&self.d()) * self.esk()).to_bytes()
    }
    pub fn plaintext(&self, memo: &[u8; 512]) -> [u8; 564] {
        let mut p = [0; 564];
        p[0] = 2;
        p[1..12].copy_from_slice(&self.d());
        p[12..20].copy_from_slice(&self.v.to_le_bytes());
        p[20..52].copy_from_slice(&self.rseed);
        p[52..].copy_from_slice(memo);
        p
    }
}
pub fn note_commit(
    gd: &[u8; 32],
    pkd: &[u8; 32],
    v: u64,
    rho: &Base,
    psi: &Base,
    rcm: &Scalar,
) -> Option<Point> {
    let mut bits = byte_bits(gd);
    bits.extend(byte_bits(pkd));
    bits.extend(byte_bits(&v.to_le_bytes()));
    bits.extend(base_bits(rho));
    bits.extend(base_bits(psi));
    dom(0).commit(&bits, rcm)
}
pub fn prf_nf(nk: &Base, rho: &Base) -> Base {
    poseidon::Hash::<_, poseidon::P128Pow5T3, poseidon::ConstantLength<2>, 3, 2>::init()
        .hash([*nk, *rho])
}

// ---------------------------------------------------------------- value commitments

pub fn value_commit(v: i128, rcv: &Scalar) -> Point {
    let m = Scalar::from_u128(v.unsigned_abs());
    let m = if v < 0 { -m } else { m };
    value_v() * m + value_r() * rcv
}

// ---------------------------------------------------------------- RedPallas

pub fn h_star(parts: &[&[u8]]) -> Scalar {
    to_scalar(&b2_512(b"Zcash_RedPallasH", parts))
}
/// RedDSA.Validate over Pallas, for the given base point.
pub fn redpallas_verify(basepoint: &Point, vk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    let rb: [u8; 32] = sig[..32].try_into().unwrap();
    let sb: [u8; 32] = sig[32..].try_into().unwrap();
    let (Some(vkp), Some(r), Some(s)) = (pt(vk), pt(&rb), scalar(&sb)) else {
        return false;
    };
    let c = h_star(&[&rb, vk, msg]);
    basepoint * s == r + vkp * c
}
/// RedDSA.Sign with explicit randomness.
pub fn redpallas_sign(basepoint: &Point, sk: &Scalar, t: &[u8], msg: &[u8]) -> [u8; 64] {
    let vk = (basepoint * sk).to_bytes();
    let r = h_star(&[t, &vk, msg]);
    let rb = (basepoint * r).to_bytes();
    let c = h_star(&[&rb, &vk, msg]);
    let s = r + c * sk;
    let mut o = [0; 64];
    o[..32].copy_from_slice(&rb);
    o[32..].copy_from_slice(&s.to_repr());
    o
}

// ---------------------------------------------------------------- note encryption

pub fn aead_enc(key: &[u8; 32], pt: &[u8]) -> Vec<u8> {
    let mut v = pt.to_vec();
    let tag = ChaCha20Poly1305::new(key.into())
        .encrypt_in_place_detached(&[0u8; 12].into(), &[], &mut v)
        .unwrap();
    v.extend_from_slice(&tag);
    v
}
pub fn aead_dec(key: &[u8; 32], ct: &[u8]) -> Option<Vec<u8>> {
    let (c, tag) = ct.split_at(ct.len() - 16);
    let mut v = c.to_vec();
    ChaCha20Poly1305::new(key.into())
        .decrypt_in_place_detached(&[0u8; 12].into(), &[], &mut v, tag.into())
        .ok()?;
    Some(v)
}
pub fn kdf(shared: &Point, epk: &[u8; 32]) -> [u8; 32] {
    b2_256(b"Zcash_OrchardKDF", &[&shared.to_bytes(), epk])
}
pub fn ock(ovk: &[u8; 32], cv: &[u8; 32], cmx: &[u8; 32], epk: &[u8; 32]) -> [u8; 32] {
    b2_256(b"Zcash_Orchardock", &[ovk, cv, cmx, epk])
}
#[derive(Clone)]
pub struct Transmitted {
    pub epk: [u8; 32],
    pub enc: [u8; 580],
    pub out: [u8; 80],
}
/// Encrypts arbitrary plaintext bytes to `pk_d` with ephemeral secret `esk` on base `gd`.
pub fn enc_raw(esk: &Scalar, gd: &Point, pk_d: &Point, plaintext: &[u8; 564]) -> ([u8; 32], [u8; 580]) {
    let epk = (gd * esk).to_bytes();
    let k = kdf(&(pk_d * esk), &epk);
    (epk, aead_enc(&k, plaintext).try_into().unwrap())
}
pub fn encrypt(
    note: &RNote,
    memo: &[u8; 512],
    ovk: Option<&[u8; 32]>,
    cv: &[u8; 32],
) -> Transmitted {
    let esk = note.esk();
    let (epk, enc) = enc_raw(&esk, &g_d(&note.d()), &pt(&note.pk_d()).unwrap(), &note.plaintext(memo));
    let out = match ovk {
        Some(ovk) => {
            let k = ock(ovk, cv, &note.cmx().to_repr(), &epk);
            let mut op = [0; 64];
            op[..32].copy_from_slice(&note.pk_d());
            op[32..].copy_from_slice(&esk.to_repr());
            aead_enc(&k, &op).try_into().unwrap()
        }
        None => [0; 80],
    };
    Transmitted { epk, enc, out }
}
/// The public data a receiver sees of an action.
#[derive(Clone, Debug)]
pub struct Pub {
    pub nf: [u8; 32],
    pub cmx: [u8; 32],
    pub cv: [u8; 32],
    pub epk: [u8; 32],
    pub enc: Vec<u8>,
    pub out: [u8; 80],
}
fn check_plain(p: &Pub, np: &[u8], pk_d: &[u8; 32]) -> Option<RNote> {
    if np[0] != 2 {
        return None;
    }
    let d: [u8; 11] = np[1..12].try_into().unwrap();
    let mut addr = [0; 43];
    addr[..11].copy_from_slice(&d);
    addr[11..].copy_from_slice(pk_d);
    let n = RNote {
        addr,
        v: u64::from_le_bytes(np[12..20].try_into().unwrap()),
        rho: base(&p.nf)?,
        rseed: np[20..52].try_into().unwrap(),
    };
    if bool::from(n.esk().is_zero()) {
        return None;
    }
    let cm = n.cm()?;
    if extract(&cm).to_repr() != p.cmx {
        return None;
    }
    if n.epk() != p.epk {
        return None;
    }
    Some(n)
}
/// Section 4.20.2: decryption using an incoming viewing key.
pub fn decrypt_ivk(p: &Pub, ivk: &Base) -> Option<(RNote, [u8; 512])> {
    let epk = pt(&p.epk)?;
    if bool::from(epk.is_identity()) {
        return None;
    }
    let k = kdf(&(epk * base_as_scalar(ivk)), &p.epk);
    let np = aead_dec(&k, &p.enc)?;
    let d: [u8; 11] = np[1..12].try_into().unwrap();
    let pk_d = (g_d(&d) * base_as_scalar(ivk)).to_bytes();
    let n = check_plain(p, &np, &pk_d)?;
    Some((n, np[52..].try_into().unwrap()))
}
/// Compact decryption (first 52 bytes of the ciphertext, no authentication tag).
pub fn decrypt_compact(p: &Pub, ivk: &Base) -> Option<RNote> {
    use chacha20poly1305::aead::generic_array::GenericArray;
    let epk = pt(&p.epk)?;
    if bool::from(epk.is_identity()) {
        return None;
    }
    let k = kdf(&(epk * base_as_scalar(ivk)), &p.epk);
    // The keystream of the AEAD is independent of the plaintext: encrypting zeros yields it.
    let mut ks = [0u8; 52];
    ChaCha20Poly1305::new(GenericArray::from_slice(&k))
        .encrypt_in_place_detached(&[0u8; 12].into(), &[], &mut ks)
        .unwrap();
    let np: Vec<u8> = p.enc[..52].iter().zip(ks.iter()).map(|(a, b)| a ^ b).collect();
    let d: [u8; 11] = np[1..12].try_into().unwrap();
    let pk_d = (g_d(&d) * base_as_scalar(ivk)).to_bytes();
    check_plain(p, &np, &pk_d)
}
/// Section 4.20.3: decryption using an outgoing viewing key.
pub fn decrypt_ovk(p: &Pub, ovk: &[u8; 32]) -> Option<(RNote, [u8; 512])> {
    let k = ock(ovk, &p.cv, &p.cmx, &p.epk);
    let op = aead_dec(&k, &p.out)?;
    let pk_db: [u8; 32] = op[..32].try_into().unwrap();
    let esk = scalar(op[32..].try_into().unwrap())?;
    if bool::from(esk.is_zero()) {
        return None;
    }
    let pk_d = pt(&pk_db)?;
    if bool::from(pk_d.is_identity()) {
        return None;
    }
    let epk = pt(&p.epk)?;
    if bool::from(epk.is_identity()) {
        return None;
    }
    let k = kdf(&(pk_d * esk), &p.epk);
    let np = aead_dec(&k, &p.enc)?;
    // esk must be the one the note determines.
    let n = check_plain(p, &np, &pk_db)?;
    if n.esk() != esk {
        return None;
    }
    if (g_d(&n.d()) * esk).to_bytes() != p.epk {
        return None;
    }
    Some((n, np[52..].try_into().unwrap()))
}

// ---------------------------------------------------------------- ZIP 244

#[derive(Clone, Debug)]
pub struct RAction {
    pub nf: [u8; 32],
    pub rk: [u8; 32],
    pub cmx: [u8; 32],
    pub cv: [u8; 32],
    pub epk: [u8; 32],
    pub enc: Vec<u8>,
    pub out: Vec<u8>,
}
pub fn txid_digest(actions: &[RAction], flags: u8, balance: i64, anchor: &[u8; 32]) -> [u8; 32] {
    let (mut c, mut m, mut n) = (vec![], vec![], vec![]);
    for a in actions {
        c.extend_from_slice(&a.nf);
        c.extend_from_slice(&a.cmx);
        c.extend_from_slice(&a.epk);
        c.extend_from_slice(&a.enc[..52]);
        m.extend_from_slice(&a.enc[52..564]);
        n.extend_from_slice(&a.cv);
        n.extend_from_slice(&a.rk);
        n.extend_from_slice(&a.enc[564..]);
        n.extend_from_slice(&a.out);
    }
    b2_256(
        b"ZTxIdOrchardHash",
        &[
            &b2_256(b"ZTxIdOrcActCHash", &[&c]),
            &b2_256(b"ZTxIdOrcActMHash", &[&m]),
            &b2_256(b"ZTxIdOrcActNHash", &[&n]),
            &[flags],
            &balance.to_le_bytes(),
            anchor,
        ],
    )
}
pub fn auth_digest(proof: &[u8], sigs: &[[u8; 64]], binding: &[u8; 64]) -> [u8; 32] {
    let mut v = proof.to_vec();
    for s in sigs {
        v.extend_from_slice(s);
    }
    v.extend_from_slice(binding);
    b2_256(b"ZTxAuthOrchaHash", &[&v])
}

// ---------------------------------------------------------------- small helpers

pub fn idx(j: u128) -> [u8; 11] {
    j.to_le_bytes()[..11].try_into().unwrap()
}
