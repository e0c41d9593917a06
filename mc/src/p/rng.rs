//! C03 arrangement of requests, C22 use of randomness: the builder's random draws as an
//! enumerated environment.

use super::full::*;
use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base, Scalar};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use group::GroupEncoding;
use orchard::builder::{BundleMetadata, InProgress, MaybeSigned, PartiallyAuthorized, UnauthorizedBundle, Unproven};
use orchard::Bundle;
use rand_core::{CryptoRng, RngCore};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

type Arr = (Vec<Option<usize>>, Vec<Option<usize>>);

fn arrangement(meta: &BundleMetadata, s: usize, o: usize) -> Arr {
    ((0..s).map(|i| meta.spend_action_index(i)).collect(), (0..o).map(|i| meta.output_action_index(i)).collect())
}

fn requests(seed: u64, bt: BT, s: usize, o: usize, v: u64) -> (Req, Key, Key) {
    let (k, k2) = (Key::new(seed, 0), Key::new(seed, 1));
    let notes = (0..s.max(1) as u64)
        .map(|j| (k.clone(), j % 2 == 1, rnote(k.addr(j % 2 == 1, j as u128), v * (5 + j), rbase(seed, "rho", j), bytes32(seed, "rs", j))))
        .collect();
    let (root, mut owned) = plant(notes);
    owned.truncate(s);
    // Equal recipients and values: outputs are told apart by memo.
    let outs = (0..o)
        .map(|j| {
            let mut m = [0u8; 512];
            m[3] = j as u8 + 1;
            (k2.addr(false, 0), 2, Some(m), Some([9; 32]))
        })
        .collect();
    (Req { bt, root, spends: owned, outs }, k, k2)
}

/// The bundle contains each request exactly where the metadata says.
fn check_meta(req: &Req, k2: &Key, b: &UnauthorizedBundle<i64>, meta: &BundleMetadata, what: &str) -> Result<Arr, String> {
    let (s, o) = (req.spends.len(), req.outs.len());
    let n = b.actions().len();
    let arr = arrangement(meta, s, o);
    let mut used = BTreeSet::new();
    for (i, w) in req.spends.iter().enumerate() {
        let a = arr.0[i].ok_or(format!("{what}: no action for spend {i}"))?;
        ensure!(a < n && used.insert(a), "{what}: action {a} of spend {i} is out of range or taken");
        eq!(hx(b.actions()[a].nullifier().to_bytes()), hx(w.nf()), "{what}: nullifier in the action of spend {i}");
    }
    let mut used = BTreeSet::new();
    for (i, (_, v, m, _)) in req.outs.iter().enumerate() {
        let a = arr.1[i].ok_or(format!("{what}: no action for output {i}"))?;
        ensure!(a < n && used.insert(a), "{what}: action {a} of output {i} is out of range or taken");
        let p = rpub(&b.actions()[a]);
        let (rn, rm) = refm::decrypt_ivk(&p, &k2.r.ext.ivk).ok_or(format!("{what}: output {i} is not in action {a}"))?;
        eq!(rn.v, *v, "{what}: value in the action of output {i}");
        eq!(hx(rm), hx(memo_bytes(m)), "{what}: memo in the action of output {i}");
    }
    for j in [s, s + 1, n, n + 1, usize::MAX] {
        if j >= s {
            eq!(meta.spend_action_index(j), None, "{what}: spend {j} was not requested");
        }
    }
    for j in [o, o + 1, n, n + 1, usize::MAX] {
        if j >= o {
            eq!(meta.output_action_index(j), None, "{what}: output {j} was not requested");
        }
    }
    Ok(arr)
}

/// Randomness whose order-deciding draws are choices of the explorer.
struct ChoiceRng<'a, 'b> {
    c: &'a mut Chooser<'b>,
    inner: DetRng,
    first: usize,
    /// Ordinals of order-deciding draws that are explored, if not all; the others take a fixed value.
    only: Option<&'a BTreeSet<usize>>,
    q: usize,
    limit: usize,
    made: usize,
    done: bool,
}
impl RngCore for ChoiceRng<'_, '_> {
    fn next_u32(&mut self) -> u32 {
        let i = self.inner.draws.len();
        let w = self.inner.next_u32();
        if i < self.first || self.done {
            return w;
        }
        let ord = self.made;
        self.made += 1;
        if ord >= self.limit {
            return w;
        }
        if self.only.map_or(false, |s| !s.contains(&ord)) {
            return (0.05 * 4294967296.0) as u32;
        }
        let v = self.c.pick("draw", self.q);
        ((v as f64 + 0.4) / self.q as f64 * 4294967296.0) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.done |= self.inner.draws.len() > self.first;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.done |= self.inner.draws.len() > self.first;
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for ChoiceRng<'_, '_> {}

/// Draws that influence the arrangement (of spends, of outputs), found by perturbing each.
fn relevant(req: &Req, rng: &DetRng) -> Result<(Vec<(usize, bool, bool)>, Vec<u8>), String> {
    let (s, o) = (req.spends.len(), req.outs.len());
    let mut r0 = rng.clone();
    let base = arrangement(&req.build(&mut r0)?.ok_or("no bundle")?.1, s, o);
    let kinds = r0.draws.clone();
    use rayon::prelude::*;
    let rel = (0..kinds.len())
        .into_par_iter()
        .map(|i| {
            let (mut ds, mut dout) = (false, false);
            let all = [0u64, u64::MAX, 0x2000_0000_0000_0000, 0x5000_0000_0000_0000, 0x9000_0000_0000_0000, 0xd000_0000_0000_0000];
            for v in all.into_iter().skip(1).chain([0]).take(if kinds[i] == 4 { 6 } else { 2 }) {
                let mut r = rng.clone();
                r.over.insert(i, v);
                let arr = arrangement(&req.build(&mut r)?.ok_or("no bundle")?.1, s, o);
                // A rejected value shifts all later draws; that is no influence of the value itself.
                let narrow = |k: &[u8]| k[i..].iter().take_while(|k| **k == 4).count();
                if r.draws == kinds || kinds[i] == 4 && narrow(&r.draws) == narrow(&kinds) {
                    ds |= arr.0 != base.0;
                    dout |= arr.1 != base.1;
                }
            }
            Ok((ds || dout).then(|| (i, ds, dout)))
        })
        .collect::<Result<Vec<_>, String>>()?;
    Ok((rel.into_iter().flatten().collect(), kinds))
}

fn perms(n: usize, k: usize) -> usize {
    (0..k).map(|i| n - i).product()
}

pub fn c03(x: &mut Ctx) {
    let seed = x.seed;
    let mmax = x.q(4usize, 7);
    let tx = |req| BT::Tx { s: true, o: true, req };
    let mut cases: Vec<(BT, usize, usize)> = vec![(tx(false), 2, 2), (tx(false), 1, 1), (tx(false), 0, 1), (tx(false), 1, 0), (tx(false), 1, 2), (tx(false), 2, 1), (BT::Coinbase, 0, 2), (tx(false), 3, 3), (tx(false), 1, 3), (tx(false), 3, 2)];
    if x.thorough() {
        cases.extend([(tx(true), 1, 1), (tx(false), 2, 3), (tx(false), 0, 3), (tx(false), 3, 0), (BT::Coinbase, 0, 3), (tx(false), 3, 1)]);
    }
    let extra = x.q(1usize, 2);
    x.bound(format!("metadata: 9 bundle types x up to {mmax} spends x up to {mmax} outputs x {} randomness streams, and {} larger shapes up to {} requests; order: every value on a 6-point grid (12 for four actions) of every draw that decides the order, with up to {extra} rejected draws (one fewer for three actions), for {} request shapes of 1-3 actions, and for four actions the spend and output orders separately", x.q(2, 4), x.q(6, 13), x.q(66, 201), cases.len()));
    x.assume("a draw decides the order if changing it alone changes the metadata; probabilities are computed exactly on the grid and compared within 10%; if the order is decided by other than 32-bit draws, 2000 enumerated streams and a six sigma interval are used instead");
    let types = BT::all();
    let streams = x.q(2, 4);
    x.space("metadata", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let s = if t.spends() { c.pick("spends", mmax + 1) } else { 0 };
        let o = if t.outputs() { c.pick("outputs", mmax + 1) } else { 0 };
        let r = c.pick("stream", streams) as u64;
        let (req, _, k2) = requests(seed, t, s, o, 1);
        let what = format!("{t:?} {s}+{o}");
        c.compared();
        if let Some((b, meta)) = req.build(DetRng::new(seed, "c03m", r * 100 + (s * 10 + o) as u64))? {
            let arr = check_meta(&req, &k2, &b, &meta, &what)?;
            c.state(format!("{what} {arr:?}"));
        } else {
            c.state(&what);
        }
        Ok(())
    });
    let big: Vec<(usize, usize)> = x.q(
        vec![(9, 0), (0, 17), (17, 17), (33, 5), (5, 34), (66, 65)],
        vec![(9, 0), (0, 9), (9, 8), (17, 17), (16, 15), (33, 5), (5, 34), (0, 65), (66, 65), (65, 1), (130, 129), (200, 0), (0, 201)],
    );
    x.space("many", &|c: &mut Chooser| {
        let (s, o) = *c.of("counts", &big);
        let t = if s == 0 && c.flag("coinbase") { BT::Coinbase } else { tx(false) };
        let (req, _, k2) = requests(seed, t, s, o, 1);
        let what = format!("{t:?} {s}+{o}");
        let (b, meta) = req.build(DetRng::new(seed, "c03b", (s * 1000 + o) as u64))?.ok_or("no bundle")?;
        let arr = check_meta(&req, &k2, &b, &meta, &what)?;
        eq!(b.actions().len(), t.actions(s, o), "{what}: actions");
        c.state(format!("{what} {arr:?}"));
        c.compared_n((s + o) as u64);
        Ok(())
    });
    x.space("no-bundle", &|c: &mut Chooser| {
        let m = BundleMetadata::empty();
        for i in [0, 1, usize::MAX] {
            eq!(m.spend_action_index(i), None, "empty metadata, spend {i}");
            eq!(m.output_action_index(i), None, "empty metadata, output {i}");
        }
        c.state("empty");
        c.compared_n(6);
        Ok(())
    });
    // Many actions: too many orders to enumerate, so the place of every request and the distance
    // between neighbouring ones, over enumerated streams.
    let places: Vec<(BT, usize, usize)> = {
        let mut v = vec![(tx(false), 5, 5), (tx(false), 6, 6), (tx(false), 0, 7), (tx(false), 8, 8), (tx(true), 9, 2), (tx(false), 3, 12), (tx(false), 17, 17), (tx(false), 5, 34), (tx(false), 33, 2), (BT::Coinbase, 0, 6), (BT::Coinbase, 0, 18)];
        if x.thorough() {
            v.extend([(tx(false), 7, 7), (tx(true), 10, 10), (tx(false), 12, 12), (tx(false), 16, 16), (tx(false), 20, 3), (tx(false), 25, 25), (tx(false), 32, 32), (BT::Coinbase, 0, 33), (tx(false), 66, 65)]);
        }
        v
    };
    let many = x.q([400u64, 150], [1500, 600]);
    x.bound(format!("places: {} shapes of 5 to {} actions x {} streams ({} above 9 actions)", places.len(), x.q(34, 66), many[0], many[1]));
    for (pi, (bt, s, o)) in places.into_iter().enumerate() {
        if x.has_violation() {
            return;
        }
        let n = bt.actions(s, o);
        let total = many[(n > 9) as usize];
        let name = format!("places-{pi}-{n}-actions-{s}-{o}");
        if x.is_replay() && !x.replays(&name) {
            continue;
        }
        let (req, _, _) = requests(seed, bt, s, o, 0);
        // (what, request, cell) -> count
        let dist: Mutex<BTreeMap<(&'static str, usize, usize), u64>> = Default::default();
        x.space(&name, &|c: &mut Chooser| {
            let i = c.pick("stream", total as usize) as u64;
            let (b, meta) = req.build(DetRng::new(seed, "c03p", pi as u64 * 100000 + i))?.ok_or("no bundle")?;
            eq!(b.actions().len(), n, "{name}: actions");
            let arr = arrangement(&meta, s, o);
            let sp = arr.0.into_iter().collect::<Option<Vec<_>>>().ok_or("a spend has no action")?;
            let op = arr.1.into_iter().collect::<Option<Vec<_>>>().ok_or("an output has no action")?;
            for (j, w) in req.spends.iter().enumerate() {
                ensure!(sp[j] < n && hx(b.actions()[sp[j]].nullifier().to_bytes()) == hx(w.nf()), "{name}: nullifier in the action of spend {j}");
            }
            let mut d = dist.lock().unwrap();
            let mut add = |w, j, cell| *d.entry((w, j, cell)).or_default() += 1;
            for (w, v) in [("place of spend", &sp), ("place of output", &op)] {
                v.iter().enumerate().for_each(|(j, a)| add(w, j, *a));
            }
            for (w, v) in [("distance from spend", &sp), ("distance from output", &op)] {
                v.windows(2).enumerate().for_each(|(j, a)| add(w, j, (a[1] + n - a[0]) % n));
            }
            sp.iter().zip(&op).enumerate().for_each(|(j, (a, b))| add("distance from the spend to output", j, (b + n - a) % n));
            c.state(format!("{sp:?} {op:?}"));
            c.outcome(format!("spend first at {:?}, output first at {:?}", sp.first(), op.first()));
            c.compared_n(1 + s as u64);
            Ok(())
        });
        if x.has_violation() || x.is_replay() {
            continue;
        }
        let dist = dist.into_inner().unwrap();
        let r = (|| {
            for (what, count, first, cells) in [("place of spend", s, 0, n), ("place of output", o, 0, n), ("distance from spend", s.max(1) - 1, 1, n - 1), ("distance from output", o.max(1) - 1, 1, n - 1), ("distance from the spend to output", s.min(o), 0, n)] {
                let p = 1.0 / cells as f64;
                let e = total as f64 * p;
                // Six sigma, and a little more where the binomial distribution is skewed.
                let tol = 6.0 * (e * (1.0 - p)).sqrt() + 6.0;
                for j in 0..count {
                    for cell in first..n {
                        let w = dist.get(&(what, j, cell)).copied().unwrap_or(0) as f64;
                        ensure!((w - e).abs() <= tol, "{bt:?} {s}+{o}: {what} {j} is {cell} in {w} of {total} streams, not about {e:.0}");
                    }
                }
            }
            Ok(())
        })();
        x.aggregate(&name, r);
    }
    // (case, explored draws: all, those of the spends, those of the outputs)
    let mut runs: Vec<((BT, usize, usize), u8, usize, usize)> = cases.iter().map(|c| (*c, 0, 6, if c.0.actions(c.1, c.2) > 2 { extra - 1 } else { extra })).collect();
    runs.push(((tx(false), 4, 4), 1, 12, 0));
    runs.push(((tx(false), 4, 4), 2, 12, 0));
    for (ci, ((bt, s, o), part, q, extra)) in runs.into_iter().enumerate() {
        if x.has_violation() {
            return;
        }
        let (req, _, k2) = requests(seed, bt, s, o, 0);
        let n = bt.actions(s, o);
        let name = format!("order-{ci}-{n}-actions-{s}-{o}");
        if x.is_replay() && !x.replays(&name) {
            continue;
        }
        let mut base_rng = DetRng::new(seed, "c03", ci as u64);
        base_rng.fixed32 = Some((0.05 * 4294967296.0) as u32);
        let (rel, kinds) = match relevant(&req, &base_rng) {
            Ok(r) => r,
            Err(e) => {
                x.space(&name, &|c: &mut Chooser| {
                    c.state("error");
                    Err(format!("{name}: {e}"))
                });
                return;
            }
        };
        // All 32-bit draws next to the deciding ones: some decide nothing around this base.
        let (mut first, mut end) = rel.first().map_or((0, 0), |f| (f.0, rel.last().unwrap().0 + 1));
        while first > 0 && kinds[first - 1] == 4 {
            first -= 1;
        }
        while end < kinds.len() && kinds[end] == 4 {
            end += 1;
        }
        let only: BTreeSet<usize> = rel.iter().filter(|r| if part == 1 { r.1 } else { r.2 }).map(|r| r.0 - first).collect();
        let tree = !rel.is_empty() && end - first <= 2 * n && (first..end).all(|i| kinds[i] == 4) && (part == 0 || only.len() <= n);
        let dist: Mutex<BTreeMap<Arr, u64>> = Default::default();
        if std::env::var_os("MC_DEBUG").is_some() {
            println!("{name}: deciding draws {rel:?}, kinds {:?}", &kinds[..kinds.len().min(100)]);
        }
        if tree && n > 1 {
            let limit = end - first + extra;
            let only = (part > 0).then_some(&only);
            x.space(&name, &|c: &mut Chooser| {
                let mut rng = ChoiceRng { c, inner: base_rng.clone(), first, only, q, limit, made: 0, done: false };
                let (b, meta) = req.build(&mut rng)?.ok_or("no bundle")?;
                let made = rng.made;
                let arr = check_meta(&req, &k2, &b, &meta, &name)?;
                if made <= limit {
                    *dist.lock().unwrap().entry(arr.clone()).or_default() += (q as u64).pow((limit - made) as u32);
                }
                c.outcome(if made <= limit { format!("{arr:?}") } else { "more rejections than explored".into() });
                c.state(format!("{arr:?} {made}"));
                c.compared_n(1 + (s + o) as u64);
                Ok(())
            });
        } else {
            let total = if n == 1 || s + o == 0 { 16 } else { 2000 };
            x.space(&name, &|c: &mut Chooser| {
                let i = c.pick("stream", total) as u64;
                let (b, meta) = req.build(DetRng::new(seed, "c03f", ci as u64 * 100000 + i))?.ok_or("no bundle")?;
                let arr = check_meta(&req, &k2, &b, &meta, &name)?;
                *dist.lock().unwrap().entry(arr.clone()).or_default() += 1;
                c.outcome(format!("{arr:?}"));
                c.state(format!("{arr:?}"));
                c.compared();
                Ok(())
            });
        }
        if x.has_violation() || x.is_replay() {
            continue;
        }
        let dist = dist.into_inner().unwrap();
        let total: u64 = dist.values().sum();
        let judge = |what: &str, d: &BTreeMap<Vec<Vec<Option<usize>>>, u64>, count: usize| -> Result<(), String> {
            ensure!(d.len() == count, "{what}: {} of {count} arrangements are reachable", d.len());
            let e = total as f64 / count as f64;
            let tol = if tree { 0.1 * e } else { 6.0 * (e * (1.0 - 1.0 / count as f64)).sqrt() };
            for (a, w) in d {
                ensure!((*w as f64 - e).abs() <= tol + 1e-9, "{what}: arrangement {a:?} has probability {:.4}, not {:.4}", *w as f64 / total as f64, e / total as f64);
            }
            Ok(())
        };
        let marg = |f: &dyn Fn(&Arr) -> Vec<Vec<Option<usize>>>| {
            let mut m: BTreeMap<_, u64> = BTreeMap::new();
            for (a, w) in &dist {
                *m.entry(f(a)).or_default() += w;
            }
            m
        };
        let partial = part > 0;
        let r = (|| {
            if !partial || part == 1 {
                judge(&format!("{bt:?}, spends of {s}+{o}"), &marg(&|a| vec![a.0.clone()]), perms(n, s))?;
            }
            if !partial || part == 2 {
                judge(&format!("{bt:?}, outputs of {s}+{o}"), &marg(&|a| vec![a.1.clone()]), perms(n, o))?;
            }
            for i in 0..if part == 2 { 0 } else { s } {
                judge(&format!("{bt:?}, place of spend {i} of {s}+{o}"), &marg(&|a| vec![vec![a.0[i]]]), n)?;
            }
            for i in 0..if part == 1 { 0 } else { o } {
                judge(&format!("{bt:?}, place of output {i} of {s}+{o}"), &marg(&|a| vec![vec![a.1[i]]]), n)?;
            }
            if !partial {
                judge(&format!("{bt:?}, spends and outputs of {s}+{o} together"), &marg(&|a| vec![a.0.clone(), a.1.clone()]), perms(n, s) * perms(n, o))?;
            }
            Ok(())
        })();
        x.aggregate(&name, r);
    }
}

// --------------------------------------------------------------------------------- C22

/// A named value of a bundle with the group it must be fresh in.
type Parts = BTreeMap<String, Vec<u8>>;

fn parts<T: orchard::bundle::Authorization>(b: &Bundle<T, i64>) -> Parts {
    let mut m = Parts::new();
    for (i, a) in b.actions().iter().enumerate() {
        let p = rpub(a);
        let rk: [u8; 32] = a.rk().into();
        m.insert(format!("rk {i}"), rk.to_vec());
        m.insert(format!("cv {i}"), p.cv.to_vec());
        m.insert(format!("cmx {i}"), p.cmx.to_vec());
        m.insert(format!("epk {i}"), p.epk.to_vec());
        m.insert(format!("enc {i}"), p.enc);
        m.insert(format!("out {i}"), p.out.to_vec());
        m.insert(format!("nf {i}"), p.nf.to_vec());
    }
    m
}
fn sigparts(b: &Bundle<InProgress<Unproven, PartiallyAuthorized>, i64>, m: &mut Parts) {
    for (i, a) in b.actions().iter().enumerate() {
        if let MaybeSigned::Signature(s) = a.authorization() {
            let s: [u8; 64] = s.into();
            m.insert(format!("sig {i}"), s[..32].to_vec());
        }
    }
}
/// Builds and signs from one stream.
fn run(req: &Req, k: &Key, rng: &mut DetRng) -> Result<(Parts, Arr), String> {
    let (b, meta) = req.build(&mut *rng)?.ok_or("no bundle")?;
    let arr = arrangement(&meta, req.spends.len(), req.outs.len());
    let mut m = parts(&b);
    let p = b.prepare(&mut *rng, [5; 32]).sign(&mut *rng, &k.ask);
    sigparts(&p, &mut m);
    Ok((m, arr))
}

pub fn c22(x: &mut Ctx) {
    let seed = x.seed;
    let tx = BT::Tx { s: true, o: true, req: true };
    // Requests with no outgoing key.
    let mkv = |s: usize, o: usize, bt: BT, ovk: Option<[u8; 32]>, v: u64| {
        let (mut r, k, _) = requests(seed, bt, s, o, v);
        for out in &mut r.outs {
            out.3 = ovk;
        }
        (r, k)
    };
    let mk = |s, o, bt, ovk| mkv(s, o, bt, ovk, 0);
    // Every output worth as much as the spend of the same number.
    let level = |mut r: (Req, Key)| {
        for (o, w) in r.0.outs.iter_mut().zip(&r.0.spends) {
            o.1 = w.n.v;
        }
        r
    };
    let mut cases = vec![("2 spends, 2 outputs", mk(2, 2, tx, None)), ("1 spend, 1 output of equal value", level(mkv(1, 1, tx, None, 1))), ("padding only", mk(0, 0, tx, None)), ("coinbase", mk(0, 2, BT::Coinbase, Some([3; 32])))];
    if x.thorough() {
        cases.push(("3 spends, 3 outputs", mk(3, 3, tx, None)));
        cases.push(("2 spends, 2 outputs, outgoing key", mk(2, 2, tx, Some([3; 32]))));
        cases.push(("3 spends, 1 output", mk(3, 1, tx, None)));
    }
    let all_bits = x.thorough();
    x.bound(format!("{} bundle shapes ({:?}); every single bit of the randomness drawn while building and signing inverted in turn (quick: of draws that reach anything at all), dependence of every randomized component computed; {} streams for freshness across bundles; edge streams", cases.len(), cases.iter().map(|c| c.0).collect::<Vec<_>>(), x.q(40, 400)));
    x.assume("dependence is observed through single-bit changes around one base stream; bits that only permute the actions are left out");
    for (ci, (name, (req, k))) in cases.iter().enumerate() {
        if x.has_violation() {
            return;
        }
        let base = DetRng::new(seed, "c22", ci as u64);
        let mut r0 = base.clone();
        let start = match run(req, k, &mut r0) {
            Ok(b) => b,
            Err(e) => {
                x.space(name, &|c: &mut Chooser| {
                    c.state("error");
                    Err(e.clone())
                });
                return;
            }
        };
        // Draws no single change of which reaches any component.
        let idle: BTreeSet<usize> = {
            use rayon::prelude::*;
            let try_one = |d: usize| -> Result<bool, String> {
                for v in [1u64, 0x5555_5555_5555_5555, u64::MAX] {
                    let mut r = base.clone();
                    r.over.insert(d, v);
                    let (m, arr) = run(req, k, &mut r)?;
                    if m != start.0 || arr != start.1 {
                        return Ok(false);
                    }
                }
                Ok(true)
            };
            if all_bits || x.is_replay() && !x.replays(&format!("dependence: {name}")) {
                BTreeSet::new()
            } else {
                (0..r0.lens.len()).into_par_iter().filter(|d| try_one(*d).unwrap_or(false)).collect()
            }
        };
        let bits: Vec<(usize, usize)> =
            r0.lens.iter().enumerate().filter(|(d, _)| !idle.contains(d)).flat_map(|(d, l)| (0..l * 8).map(move |b| (d, b))).collect();
        let dep: Mutex<BTreeMap<String, BTreeSet<(usize, usize)>>> = Default::default();
        // The bits whose inversion leaves the sequence of draws as it was.
        let steady: Mutex<BTreeSet<(usize, usize)>> = Default::default();
        let space = format!("dependence: {name}");
        x.space(&space, &|c: &mut Chooser| {
            let f = *c.of("bit", &bits);
            let mut r = base.clone();
            r.flip = Some(f);
            let (m, arr) = run(req, k, &mut r)?;
            c.state(format!("{f:?}"));
            c.compared_n(m.len() as u64);
            if arr != start.1 {
                c.outcome("permutes");
                return Ok(());
            }
            let ch: Vec<_> = m.iter().filter(|(n, v)| start.0.get(*n) != Some(v)).map(|(n, _)| n.clone()).collect();
            c.outcome(ch.join(", "));
            if r.lens == r0.lens {
                steady.lock().unwrap().insert(f);
            }
            let mut d = dep.lock().unwrap();
            for n in ch {
                d.entry(n).or_default().insert(f);
            }
            Ok(())
        });
        if x.has_violation() || x.is_replay() {
            continue;
        }
        let dep = dep.into_inner().unwrap();
        let steady = steady.into_inner().unwrap();
        let none = BTreeSet::new();
        let get = |n: &str| dep.get(n).unwrap_or(&none);
        // Padding spends are those whose nullifier is not requested.
        let n = req.bt.actions(req.spends.len(), req.outs.len());
        let spend_at: BTreeSet<_> = start.1 .0.iter().flatten().copied().collect();
        let out_at: BTreeSet<_> = start.1 .1.iter().flatten().copied().collect();
        // Randomized things: name and required number of bits.
        let mut items: Vec<(String, usize)> = vec![];
        for i in 0..n {
            items.push((format!("rk {i}"), 250));
            items.push((format!("cv {i}"), 250));
            // The recipient of a padding output is random as well.
            items.push((format!("cmx {i}"), if out_at.contains(&i) { 250 } else { 400 }));
            if !out_at.contains(&i) || req.outs.iter().all(|o| o.3.is_none()) {
                items.push((format!("out {i}"), 250));
            }
            if !spend_at.contains(&i) {
                items.push((format!("nf {i}"), 500));
            }
            items.push((format!("sig {i}"), 250));
        }
        let r = (|| {
            for (a, need) in &items {
                let own: usize = get(a).len();
                ensure!(own >= *need, "{name}: {a} depends on only {own} bits of randomness");
                for (b, _) in &items {
                    if a == b {
                        continue;
                    }
                    let (sa, sb) = (a.split(' ').next().unwrap(), b.split(' ').next().unwrap());
                    let same = a.split(' ').nth(1) == b.split(' ').nth(1);
                    // The new note's rho is the nullifier, signatures and the outgoing ciphertext bind
                    // their action, so these contain the randomness of what they bind.
                    let contains = same && (sb == "sig" || sb == "out" || (sa == "nf" && sb == "cmx"));
                    if contains {
                        continue;
                    }
                    let excl = get(a).difference(get(b)).count();
                    ensure!(excl >= 250, "{name}: only {excl} bits of randomness reach {a} without reaching {b}");
                }
            }
            // The whole of a 32-byte secret: among the bits that do not move later draws, the padding
            // spend's key is what reaches both its nullifier and its rk, and its note's seed reaches
            // the nullifier only; the padding output's key and seed reach its commitment only.
            for i in 0..n {
                let of = |n: &str| -> BTreeSet<(usize, usize)> { get(&format!("{n} {i}")).intersection(&steady).copied().collect() };
                let (nf, rk, cm) = (of("nf"), of("rk"), of("cmx"));
                if !spend_at.contains(&i) {
                    let k = nf.intersection(&rk).count();
                    ensure!(k >= 252, "{name}: the key of padding spend {i} depends on only {k} bits of randomness");
                    let k = nf.difference(&rk).count();
                    ensure!(k >= 400, "{name}: the note of padding spend {i} depends on only {k} bits of randomness");
                }
                let k = cm.difference(&nf).count();
                let need = if out_at.contains(&i) { 252 } else { 508 };
                ensure!(k >= need, "{name}: the note of output {i} depends on only {k} bits of randomness");
            }
            // What is not randomized does not move.
            for i in &spend_at {
                ensure!(get(&format!("nf {i}")).is_empty(), "{name}: the nullifier of requested spend {i} depends on randomness");
            }
            Ok(())
        })();
        x.aggregate(&space, r);
    }
    // Freshness within and between bundles, and distance from the unrandomized values.
    let shapes: Vec<(usize, usize, BT, Option<[u8; 32]>)> = vec![(2, 2, tx, None), (1, 0, tx, None), (0, 1, tx, None), (0, 0, tx, None), (0, 2, BT::Coinbase, None), (3, 3, tx, Some([1; 32])), (2, 4, tx, None), (1, 1, tx, None), (2, 2, tx, Some([1; 32])), (2, 1, tx, None)];
    let seen: Mutex<BTreeMap<Vec<u8>, Vec<String>>> = Default::default();
    let streams = x.q(40usize, 400);
    x.space("freshness", &|c: &mut Chooser| {
        let si = c.pick("shape", shapes.len());
        let (s, o, bt, ovk) = shapes[si];
        // The last three: equal values.
        let (req, k) = if si < shapes.len() - 3 { mkv(s, o, bt, ovk, 1) } else { level(mkv(s, o, bt, ovk, 1)) };
        let i = c.pick("stream", streams);
        let mut rng = DetRng::new(seed, "c22f", (si * 1000 + i) as u64);
        let mut again = rng.clone();
        let (m, arr) = run(&req, &k, &mut rng)?;
        let (m2, arr2) = run(&req, &k, &mut again)?;
        ensure!(m == m2 && arr == arr2, "shape {si}: equal randomness gave different bundles");
        for w in &req.spends {
            for (n, v) in &m {
                ensure!(!n.starts_with("rk") || v[..] != w.key.r.ak[..], "shape {si}: {n} is the unrandomized key");
            }
        }
        let (vs, vo): (Vec<i128>, Vec<i128>) = (req.spends.iter().map(|w| w.n.v as i128).chain([0]).collect(), req.outs.iter().map(|o| o.1 as i128).chain([0]).collect());
        for a in &vs {
            for b in &vo {
                let plain = refm::value_commit(a - b, &Scalar::zero()).to_bytes();
                for (n, v) in &m {
                    ensure!(!n.starts_with("cv") || v[..] != plain[..], "shape {si}: {n} is an unblinded commitment");
                }
            }
        }
        let requested: Vec<_> = req.spends.iter().map(|w| w.nf().to_vec()).collect();
        let mut all = seen.lock().unwrap();
        for (n, v) in m {
            if requested.contains(&v) {
                continue;
            }
            ensure!(v.iter().any(|b| *b != 0), "{n} is zero");
            all.entry(v).or_default().push(format!("shape {si} stream {i}: {n}"));
        }
        drop(all);
        c.state(format!("{si} {i}"));
        c.compared_n(4);
        Ok(())
    });
    // Much padding, and many actions of one kind.
    let wide: Vec<(usize, usize, BT)> = x.q(vec![(1, 12, tx), (12, 1, tx), (18, 18, tx), (0, 40, tx), (40, 0, tx), (0, 20, BT::Coinbase)], vec![(1, 12, tx), (12, 1, tx), (18, 18, tx), (0, 40, tx), (40, 0, tx), (0, 20, BT::Coinbase), (0, 140, tx), (70, 140, tx), (140, 3, tx), (0, 300, BT::Coinbase)]);
    x.bound(format!("freshness in bundles of (spends, outputs) {:?} with 3 streams each", wide.iter().map(|w| (w.0, w.1)).collect::<Vec<_>>()));
    x.space("freshness among many", &|c: &mut Chooser| {
        let wi = c.pick("shape", wide.len());
        let (s, o, bt) = wide[wi];
        let i = c.pick("stream", 3);
        let (req, k) = mkv(s, o, bt, None, 1);
        let (m, _) = run(&req, &k, &mut DetRng::new(seed, "c22w", (wi * 10 + i) as u64))?;
        let requested: BTreeSet<_> = req.spends.iter().map(|w| w.nf().to_vec()).collect();
        let plain: BTreeSet<Vec<u8>> = (-150i128..150).filter(|_| i == 0).map(|v| refm::value_commit(v, &Scalar::zero()).to_bytes().to_vec()).collect();
        let mut all = seen.lock().unwrap();
        for (n, v) in m {
            if requested.contains(&v) {
                continue;
            }
            ensure!(v.iter().any(|b| *b != 0), "shape {s}+{o}: {n} is zero");
            ensure!(!plain.contains(&v), "shape {s}+{o}: {n} is an unblinded commitment");
            ensure!(v[..] != k.r.ak[..], "shape {s}+{o}: {n} is the unrandomized key");
            all.entry(v).or_default().push(format!("shape {s}+{o} stream {i}: {n}"));
        }
        drop(all);
        c.state(format!("{wi} {i}"));
        c.compared_n(4 * (s.max(o)) as u64);
        Ok(())
    });
    if !x.has_violation() && !x.is_replay() {
        let mut rep: Vec<_> = seen.into_inner().unwrap().into_values().filter(|v| v.len() > 1).collect();
        for r in &mut rep {
            r.sort();
        }
        rep.sort();
        x.aggregate("freshness", rep.first().map(|r| Err(format!("the same value appears as {r:?}"))).unwrap_or(Ok(())));
    }
    // Signatures made by the one-step helper on a proven bundle.
    if !x.has_violation() && (!x.is_replay() || x.replays("helper")) {
        let msg = [6; 32];
        let made = (|| -> Result<_, String> {
            let (req, k) = mk(2, 1, tx, None);
            let (un, _) = req.prove(DetRng::new(seed, "c22h", 0), 5)?;
            Ok((un, k))
        })();
        let sign = |rng: &mut DetRng| -> Result<Vec<Vec<u8>>, String> {
            let (un, k) = made.as_ref().map_err(|e| e.clone())?;
            let b = un.clone().apply_signatures(rng, msg, &[k.ask.clone()]).map_err(|e| format!("{e:?}"))?;
            let mut v: Vec<Vec<u8>> = b.actions().iter().map(|a| <[u8; 64]>::from(a.authorization())[..32].to_vec()).collect();
            v.push(<[u8; 64]>::from(b.authorization().binding_signature())[..32].to_vec());
            Ok(v)
        };
        let base = DetRng::new(seed, "c22hs", 0);
        let mut r0 = base.clone();
        let start = sign(&mut r0);
        let bits: Vec<(usize, usize)> = r0.lens.iter().enumerate().flat_map(|(d, l)| (0..l * 8).map(move |b| (d, b))).chain([(usize::MAX, 0)]).collect();
        x.bound(format!("signing and finalizing in one step: all {} bits drawn", bits.len() - 1));
        let dep: Mutex<BTreeMap<usize, BTreeSet<(usize, usize)>>> = Default::default();
        x.space("helper", &|c: &mut Chooser| {
            let f = *c.of("bit", &bits);
            let start = start.as_ref().map_err(|e| e.clone())?;
            let mut r = base.clone();
            r.flip = (f.0 != usize::MAX).then_some(f);
            let m = sign(&mut r)?;
            let ch: Vec<usize> = (0..m.len()).filter(|i| m[*i] != start[*i]).collect();
            ensure!(f.0 != usize::MAX || ch.is_empty(), "equal randomness gave different signatures");
            let mut d = dep.lock().unwrap();
            for i in &ch {
                d.entry(*i).or_default().insert(f);
            }
            c.outcome(format!("changes {ch:?}"));
            c.state(format!("{f:?}"));
            c.compared_n(m.len() as u64);
            Ok(())
        });
        if !x.has_violation() && !x.is_replay() {
            let dep = dep.into_inner().unwrap();
            let none = BTreeSet::new();
            let n = start.as_ref().map_or(0, |s| s.len());
            let r = (|| {
                for i in 0..n {
                    let own = dep.get(&i).unwrap_or(&none);
                    ensure!(own.len() >= 250, "signature {i} made by the helper depends on only {} bits of randomness", own.len());
                    for j in 0..n {
                        let excl = own.difference(dep.get(&j).unwrap_or(&none)).count();
                        ensure!(i == j || excl >= 250, "only {excl} bits of randomness reach signature {i} made by the helper without reaching {j}");
                    }
                }
                Ok(())
            })();
            x.aggregate("helper", r);
        }
    }
    // Proofs: reproducible from equal randomness, different with different randomness, and
    // dependent on as much of it as everything else.
    if !x.has_violation() && (!x.is_replay() || x.replays("proofs")) {
        let made = (|| -> Result<_, String> {
            let (req, k) = mk(1, 1, tx, None);
            Ok((req.build(DetRng::new(seed, "c22p", 0))?.ok_or("no bundle")?.0, k))
        })();
        let prove = |rng: &mut DetRng| -> Result<Vec<u8>, String> {
            let (b, k) = made.as_ref().map_err(|e| e.clone())?;
            let p = b.clone().create_proof(pk(), &mut *rng).map_err(|e| format!("{e:?}"))?;
            let p = p.apply_signatures(DetRng::new(seed, "x", 0), [0; 32], &[k.ask.clone()]).map_err(|e| format!("{e:?}"))?;
            Ok(p.authorization().proof().as_ref().to_vec())
        };
        let base = DetRng::new(seed, "c22pp", 0);
        let mut r0 = base.clone();
        let start = prove(&mut r0);
        // One bit of each (quick: fourth) of the first bytes drawn.
        let (first, stride) = x.q((48, 4), (80, 1));
        let bytes: Vec<(usize, usize)> = r0.lens.iter().enumerate().flat_map(|(d, l)| (0..*l).map(move |b| (d, b * 8 + 4))).take(first).step_by(stride).collect();
        x.bound(format!("proofs: equal randomness, another stream, and one bit inverted in {} of the first {first} bytes drawn", bytes.len()));
        let mattered = std::sync::atomic::AtomicUsize::new(0);
        x.space("proofs", &|c: &mut Chooser| {
            let i = c.pick("randomness", bytes.len() + 2);
            let start = start.as_ref().map_err(|e| e.clone())?;
            let mut r = if i == 1 { DetRng::new(seed, "c22pp", 1) } else { base.clone() };
            r.flip = (i > 1).then(|| bytes[i - 2]);
            let p = prove(&mut r)?;
            let same = start.chunks(32).filter(|a| p.chunks(32).any(|b| *a == b)).count();
            match i {
                0 => ensure!(p == *start, "equal randomness gave different proofs"),
                1 => ensure!(same == 0, "proofs from different randomness share {same} of {} parts", p.len() / 32),
                _ if p != *start => drop(mattered.fetch_add(1, std::sync::atomic::Ordering::SeqCst)),
                _ => {}
            }
            c.state(format!("{i}"));
            c.outcome(if i == 0 { "same" } else { "other" });
            c.compared_n(1);
            Ok(())
        });
        if !x.has_violation() && !x.is_replay() {
            let bits = mattered.into_inner() * 8 * stride;
            x.aggregate("proofs", if bits >= 250 { Ok(()) } else { Err(format!("the proof depends on about {bits} bits of randomness")) });
        }
    }
    let _ = Base::zero().to_repr();
}
