//! Shared: proving and verifying keys, proven bundles.

use crate::fx::*;
use crate::refm::Base;
use orchard::{
    builder::*,
    circuit::{ProvingKey, VerifyingKey},
    keys::OutgoingViewingKey,
    value::NoteValue,
    Bundle, Proof,
};
use rand_core::RngCore;
use std::sync::OnceLock;

pub fn pk() -> &'static ProvingKey {
    static K: OnceLock<ProvingKey> = OnceLock::new();
    K.get_or_init(ProvingKey::build)
}
pub fn vk() -> &'static VerifyingKey {
    static K: OnceLock<VerifyingKey> = OnceLock::new();
    K.get_or_init(VerifyingKey::build)
}
/// Builds both keys at once.
pub fn both_keys() {
    std::thread::scope(|s| {
        s.spawn(|| pk());
        s.spawn(|| vk());
    });
}

pub type Unsigned = Bundle<InProgress<Proof, Unauthorized>, i64>;

/// What goes into a bundle.
#[derive(Clone)]
pub struct Req {
    pub bt: BT,
    pub root: Base,
    pub spends: Vec<Owned>,
    pub outs: Vec<([u8; 43], u64, Option<[u8; 512]>, Option<[u8; 32]>)>,
}
impl Req {
    pub fn build(&self, rng: impl RngCore) -> Result<Option<(UnauthorizedBundle<i64>, BundleMetadata)>, String> {
        let mut b = Builder::new(self.bt.real(), anchor(&self.root));
        for w in &self.spends {
            w.add_to(&mut b).map_err(|e| format!("{e:?}"))?;
        }
        for (a, v, m, ovk) in &self.outs {
            b.add_output(ovk.map(OutgoingViewingKey::from), address(a), NoteValue::from_raw(*v), *m).map_err(|e| format!("{e:?}"))?;
        }
        b.build(rng).map_err(|e| format!("{e:?}"))
    }
    /// The bundle with its proof, and for each action the requested spend it holds.
    pub fn prove(&self, rng: impl RngCore, label: u64) -> Result<(Unsigned, Vec<Option<usize>>), String> {
        let (b, meta) = self.build(rng)?.ok_or("no bundle")?;
        let n = b.actions().len();
        let p = b.create_proof(pk(), DetRng::new(label, "proof", label)).map_err(|e| format!("proving failed: {e:?}"))?;
        let mut at = vec![None; n];
        for i in 0..self.spends.len() {
            let a = meta.spend_action_index(i).ok_or("no index")?;
            at[a] = Some(i);
        }
        Ok((p, at))
    }
}

/// Every 64-bit or byte draw gives the same bytes, unless a caller keeps rejecting them.
#[derive(Clone)]
pub struct ConstRng(pub u8, pub u64);
impl ConstRng {
    pub fn new(b: u8) -> Self {
        ConstRng(b, 0)
    }
}
impl RngCore for ConstRng {
    fn next_u32(&mut self) -> u32 {
        self.1 += 1;
        DetRng::new(self.1, "const32", self.0 as u64).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(self.0);
        self.1 += 1;
        if self.1 > 20_000 {
            DetRng::new(self.1, "const", self.0 as u64).fill_bytes(d)
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for ConstRng {}
