//! Fixtures: deterministic keys, notes, trees, scripted randomness, conversions.

use crate::refm::{self, Keys, Pub, RAction, RNote};
use ff::PrimeField;
use orchard::{
    builder::*,
    bundle::{Authorization, Authorized, Flags},
    keys::*,
    note::*,
    primitives::redpallas::{self, SpendAuth},
    tree::{MerkleHashOrchard, MerklePath},
    value::*,
    Action, Address, Anchor, Bundle, Note,
};
use rand_core::{CryptoRng, RngCore};

pub fn bytes32(seed: u64, label: &str, i: u64) -> [u8; 32] {
    refm::b2_256(b"orchard-mc-fixtu", &[&seed.to_le_bytes(), label.as_bytes(), &[0xff], &i.to_le_bytes()])
}
pub fn bytes64(seed: u64, label: &str, i: u64) -> [u8; 64] {
    refm::b2_512(b"orchard-mc-fixtu", &[&seed.to_le_bytes(), label.as_bytes(), &[0xfe], &i.to_le_bytes()])
}
pub fn rbase(seed: u64, label: &str, i: u64) -> refm::Base {
    refm::to_base(&bytes64(seed, label, i))
}
pub fn rscalar(seed: u64, label: &str, i: u64) -> refm::Scalar {
    refm::to_scalar(&bytes64(seed, label, i))
}

// ------------------------------------------------------------------ keys

#[derive(Clone)]
pub struct Key {
    pub r: Keys,
    pub fvk: FullViewingKey,
    pub ask: SpendAuthorizingKey,
}
impl Key {
    pub fn from_sk(sk: [u8; 32]) -> Option<Key> {
        let r = refm::keys(&sk)?;
        let s: SpendingKey = Option::from(SpendingKey::from_bytes(sk))?;
        Some(Key { r, fvk: FullViewingKey::from(&s), ask: SpendAuthorizingKey::from(&s) })
    }
    pub fn new(seed: u64, i: u64) -> Key {
        Key::from_sk(bytes32(seed, "sk", i)).expect("spending key")
    }
    /// Address at a diversifier index, as computed by the reference.
    pub fn addr(&self, internal: bool, j: u128) -> [u8; 43] {
        self.r.scope(internal).address_at(&refm::idx(j))
    }
}
pub fn scope(internal: bool) -> Scope {
    if internal {
        Scope::Internal
    } else {
        Scope::External
    }
}
pub fn address(a: &[u8; 43]) -> Address {
    Option::from(Address::from_raw_address_bytes(a)).expect("valid address")
}

// ------------------------------------------------------------------ notes

/// An rseed for which the note is valid (it practically always is the first).
pub fn rnote(addr: [u8; 43], v: u64, rho: refm::Base, rseed: [u8; 32]) -> RNote {
    RNote { addr, v, rho, rseed }
}
pub fn rho(r: &refm::Base) -> Rho {
    Option::from(Rho::from_bytes(&r.to_repr())).expect("rho")
}
pub fn note(n: &RNote) -> Note {
    let rho = rho(&n.rho);
    let rs: RandomSeed = Option::from(RandomSeed::from_bytes(n.rseed, &rho)).expect("rseed");
    Option::from(Note::from_parts(address(&n.addr), NoteValue::from_raw(n.v), rho, rs)).expect("note")
}
pub fn note_to_ref(n: &Note) -> RNote {
    RNote {
        addr: n.recipient().to_raw_address_bytes(),
        v: n.value().inner(),
        rho: refm::base(&n.rho().to_bytes()).unwrap(),
        rseed: *n.rseed().as_bytes(),
    }
}

#[derive(Clone, Debug)]
pub struct RPath {
    pub pos: u32,
    pub path: [refm::Base; 32],
}
pub fn mho(b: &refm::Base) -> MerkleHashOrchard {
    Option::from(MerkleHashOrchard::from_bytes(&b.to_repr())).expect("hash")
}
pub fn anchor(b: &refm::Base) -> Anchor {
    Option::from(Anchor::from_bytes(b.to_repr())).expect("anchor")
}
impl RPath {
    pub fn real(&self) -> MerklePath {
        MerklePath::from_parts(self.pos, self.path.map(|x| mho(&x)))
    }
    pub fn root(&self, leaf: &refm::Base) -> refm::Base {
        refm::merkle_root(leaf, self.pos, &self.path)
    }
}

/// A note owned by a key with its authentication path.
#[derive(Clone)]
pub struct Owned {
    pub key: Key,
    pub internal: bool,
    pub n: RNote,
    pub path: RPath,
}
impl Owned {
    pub fn spend_info(&self) -> SpendInfo {
        SpendInfo::new(self.key.fvk.clone(), note(&self.n), self.path.real()).expect("owned note")
    }
    pub fn add_to(&self, b: &mut Builder) -> Result<(), SpendError> {
        b.add_spend(self.key.fvk.clone(), note(&self.n), self.path.real())
    }
    pub fn nf(&self) -> [u8; 32] {
        self.n.nullifier(&self.key.r.nk).to_repr()
    }
}

/// Puts the notes into one commitment tree.
pub fn plant(notes: Vec<(Key, bool, RNote)>) -> (refm::Base, Vec<Owned>) {
    let leaves: Vec<_> = notes.iter().map(|n| n.2.cmx()).collect();
    let (root, paths) = refm::tree(&leaves);
    (
        root,
        notes
            .into_iter()
            .zip(paths)
            .enumerate()
            .map(|(i, ((key, internal, n), path))| Owned { key, internal, n, path: RPath { pos: i as u32, path } })
            .collect(),
    )
}

// ------------------------------------------------------------------ randomness

/// Deterministic stream; every draw is recorded and can be overridden.
#[derive(Clone)]
pub struct DetRng {
    seed: [u8; 32],
    ctr: u64,
    pub draws: Vec<u8>, // 4, 8 or 0 for fill_bytes
    pub over: std::collections::BTreeMap<usize, u64>,
    /// Bytes taken by each draw.
    pub lens: Vec<usize>,
    /// One bit of one draw to invert.
    pub flip: Option<(usize, usize)>,
    /// Value of all 32-bit draws.
    pub fixed32: Option<u32>,
}
impl DetRng {
    pub fn new(seed: u64, label: &str, i: u64) -> Self {
        DetRng { seed: bytes32(seed, label, i), ctr: 0, draws: vec![], over: Default::default(), lens: vec![], flip: None, fixed32: None }
    }
    fn block(&mut self) -> [u8; 64] {
        let b = refm::b2_512(b"orchard-mc-rng--", &[&self.seed, &self.ctr.to_le_bytes()]);
        self.ctr += 1;
        b
    }
    fn word(&mut self, kind: u8) -> u64 {
        let i = self.draws.len();
        self.draws.push(kind);
        self.lens.push(kind as usize);
        let b = self.block();
        let mut w = match self.over.get(&i) {
            Some(v) => *v,
            None if kind == 4 && self.fixed32.is_some() => (self.fixed32.unwrap() as u64) << 32,
            None => u64::from_le_bytes(b[..8].try_into().unwrap()),
        };
        if let Some((d, bit)) = self.flip {
            if d == i {
                w ^= 1u64.rotate_right(1 + bit as u32);
            }
        }
        w
    }
}
impl RngCore for DetRng {
    fn next_u32(&mut self) -> u32 {
        let w = self.word(4);
        (w >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word(8)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let i = self.draws.len();
        self.draws.push(0);
        let o = self.over.get(&i).copied();
        for c in dest.chunks_mut(64) {
            let mut b = self.block();
            if let Some(o) = o {
                b = refm::b2_512(b"orchard-mc-over-", &[&b, &o.to_le_bytes()]);
            }
            c.copy_from_slice(&b[..c.len()]);
        }
        self.lens.push(dest.len());
        if let Some((d, bit)) = self.flip {
            if d == i && bit / 8 < dest.len() {
                dest[bit / 8] ^= 1 << (bit % 8);
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for DetRng {}

// ------------------------------------------------------------------ bundles

pub fn raction<A>(a: &Action<A>) -> RAction {
    RAction {
        nf: a.nullifier().to_bytes(),
        rk: a.rk().into(),
        cmx: a.cmx().to_bytes(),
        cv: a.cv_net().to_bytes(),
        epk: a.encrypted_note().epk_bytes,
        enc: a.encrypted_note().enc_ciphertext.to_vec(),
        out: a.encrypted_note().out_ciphertext.to_vec(),
    }
}
pub fn rpub<A>(a: &Action<A>) -> Pub {
    Pub {
        nf: a.nullifier().to_bytes(),
        cmx: a.cmx().to_bytes(),
        cv: a.cv_net().to_bytes(),
        epk: a.encrypted_note().epk_bytes,
        enc: a.encrypted_note().enc_ciphertext.to_vec(),
        out: a.encrypted_note().out_ciphertext,
    }
}
pub fn ractions<T: Authorization, V>(b: &Bundle<T, V>) -> Vec<RAction> {
    b.actions().iter().map(raction).collect()
}
/// Builds an action from raw bytes; `None` if some component does not parse.
pub fn action_from<A>(r: &RAction, auth: A) -> Option<Action<A>> {
    let nf: Nullifier = Option::from(Nullifier::from_bytes(&r.nf))?;
    let rk = redpallas::VerificationKey::<SpendAuth>::try_from(r.rk).ok()?;
    let cmx: ExtractedNoteCommitment = Option::from(ExtractedNoteCommitment::from_bytes(&r.cmx))?;
    let cv: ValueCommitment = Option::from(ValueCommitment::from_bytes(&r.cv))?;
    Some(Action::from_parts(
        nf,
        rk,
        cmx,
        TransmittedNoteCiphertext {
            epk_bytes: r.epk,
            enc_ciphertext: r.enc.clone().try_into().ok()?,
            out_ciphertext: r.out.clone().try_into().ok()?,
        },
        cv,
        auth,
    ))
}

/// A fully authorized bundle in raw form, for tampering and for the reference.
#[derive(Clone, Debug)]
pub struct RBundle {
    pub actions: Vec<RAction>,
    pub sigs: Vec<[u8; 64]>,
    pub flags: u8,
    pub balance: i64,
    pub anchor: [u8; 32],
    pub proof: Vec<u8>,
    pub binding: [u8; 64],
}
impl RBundle {
    pub fn of(b: &Bundle<Authorized, i64>) -> Self {
        RBundle {
            actions: ractions(b),
            sigs: b.actions().iter().map(|a| a.authorization().into()).collect(),
            flags: b.flags().to_byte(),
            balance: *b.value_balance(),
            anchor: b.anchor().to_bytes(),
            proof: b.authorization().proof().as_ref().to_vec(),
            binding: b.authorization().binding_signature().into(),
        }
    }
    pub fn real(&self) -> Option<Bundle<Authorized, i64>> {
        let actions: Option<Vec<_>> = self
            .actions
            .iter()
            .zip(&self.sigs)
            .map(|(a, s)| action_from(a, redpallas::Signature::from(*s)))
            .collect();
        let actions = nonempty::NonEmpty::from_vec(actions?)?;
        Some(Bundle::from_parts(
            actions,
            Flags::from_byte(self.flags)?,
            self.balance,
            Option::from(Anchor::from_bytes(self.anchor))?,
            Authorized::from_parts(orchard::Proof::new(self.proof.clone()), redpallas::Signature::from(self.binding)),
        ))
    }
    pub fn txid(&self) -> [u8; 32] {
        refm::txid_digest(&self.actions, self.flags, self.balance, &self.anchor)
    }
    pub fn auth(&self) -> [u8; 32] {
        refm::auth_digest(&self.proof, &self.sigs, &self.binding)
    }
    /// Reference binding validating key.
    pub fn bvk(&self) -> [u8; 32] {
        use group::GroupEncoding;
        let mut p = refm::value_commit(0, &refm::Scalar::zero());
        for a in &self.actions {
            p = p + refm::pt(&a.cv).unwrap();
        }
        (p - refm::value_commit(self.balance as i128, &refm::Scalar::zero())).to_bytes()
    }
    /// All signatures valid according to the reference verifier.
    pub fn sigs_valid(&self, sighash: &[u8]) -> bool {
        self.actions
            .iter()
            .zip(&self.sigs)
            .all(|(a, s)| refm::redpallas_verify(&refm::spend_auth_g(), &a.rk, sighash, s))
            && refm::redpallas_verify(&refm::value_r(), &self.bvk(), sighash, &self.binding)
    }
}

pub fn flags(spends: bool, outputs: bool) -> Flags {
    Flags::from_byte(spends as u8 | (outputs as u8) << 1).expect("flags")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BT {
    Tx { s: bool, o: bool, req: bool },
    Coinbase,
}
impl BT {
    pub fn all() -> Vec<BT> {
        let mut v = vec![];
        for s in [true, false] {
            for o in [true, false] {
                for req in [false, true] {
                    v.push(BT::Tx { s, o, req });
                }
            }
        }
        v.push(BT::Coinbase);
        v
    }
    pub fn real(&self) -> BundleType {
        match self {
            BT::Tx { s, o, req } => BundleType::Transactional { flags: flags(*s, *o), bundle_required: *req },
            BT::Coinbase => BundleType::Coinbase,
        }
    }
    pub fn spends(&self) -> bool {
        matches!(self, BT::Tx { s: true, .. })
    }
    pub fn outputs(&self) -> bool {
        match self {
            BT::Tx { o, .. } => *o,
            BT::Coinbase => true,
        }
    }
    pub fn flag_byte(&self) -> u8 {
        self.spends() as u8 | (self.outputs() as u8) << 1
    }
    /// Number of actions for a request that the type admits.
    pub fn actions(&self, s: usize, o: usize) -> usize {
        match self {
            BT::Tx { req, .. } => {
                if s.max(o) == 0 && !req {
                    0
                } else {
                    s.max(o).max(2)
                }
            }
            BT::Coinbase => o,
        }
    }
}

pub fn default_memo() -> [u8; 512] {
    let mut m = [0; 512];
    m[0] = 0xf6;
    m
}

/// Memo patterns: text of every edge shape.
pub fn memo(i: usize) -> Option<[u8; 512]> {
    let mut m = [0u8; 512];
    match i {
        0 => return None,
        1 => {}
        2 => m = [0xff; 512],
        3 => m[511] = 1,
        4 => {
            for (i, b) in m.iter_mut().enumerate() {
                *b = i as u8
            }
        }
        5 => {
            m[0] = 0xf6;
            m[511] = 7;
        }
        6 => {
            m[0] = 0xf5;
            for (i, b) in m.iter_mut().enumerate().skip(1) {
                *b = (i * 7 % 251) as u8
            }
        }
        _ => m[(i - 7) % 512] = 0xa5,
    }
    Some(m)
}
pub fn memo_bytes(m: &Option<[u8; 512]>) -> [u8; 512] {
    m.unwrap_or_else(default_memo)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: implementation {:?}, reference {:?}", format!($($m)*), a, b)); }
    }};
}
pub fn hx(b: impl AsRef<[u8]>) -> String {
    hex::encode(b)
}
