//! C01 value balance, C02 shape and padding, C04 admission.

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use orchard::{builder::*, bundle::Flags, keys::*, value::*, Anchor};

type Built<V> = (UnauthorizedBundle<V>, BundleMetadata);

/// Balance type with a restricted range (ZIP 317-style amounts).
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Money(i64);
impl TryFrom<i64> for Money {
    type Error = ();
    fn try_from(v: i64) -> Result<Self, ()> {
        (-2_100_000_000_000_000..=2_100_000_000_000_000).contains(&v).then_some(Money(v)).ok_or(())
    }
}

fn expect<V: PartialEq + std::fmt::Debug>(
    what: &str,
    got: &Result<V, String>,
    exact: i128,
    fits: Option<V>,
    partials_fit: bool,
) -> Result<(), String> {
    match (got, &fits) {
        (Ok(g), Some(w)) => {
            eq!(g, w, "{what}");
        }
        (Ok(g), None) => return Err(format!("{what}: reported {g:?} although the exact value {exact} does not fit")),
        (Err(e), Some(w)) => ensure!(!partials_fit, "{what}: failed with {e} although {w:?} is exact and in range"),
        (Err(_), None) => {}
    }
    Ok(())
}

pub fn c01(x: &mut Ctx) {
    let seed = x.seed;
    let vals: Vec<u64> = vec![0, 1, 255, 1 << 31, 2_100_000_000_000_000, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
    let copies = 3usize;
    x.bound(format!("values {vals:?}; every sequence of up to {}+3 (query) and {} (construction) spends and outputs; balance types i64, u64, i32, i128, u8 and a money range; all integer edges of the balance types by targeted sequences; up to {} outputs with a distinguished value at every position, and every number of spends up to {}", x.q(2, 3), x.q("2+2", "2+3"), x.q(65, 257), x.q(40, 130)));
    x.assume("C18 and C19 justify the notes' paths; the oracle is exact i128 arithmetic");
    let k = Key::new(seed, 0);
    let mut notes = vec![];
    for (i, v) in vals.iter().enumerate() {
        for j in 0..copies {
            let id = (i * copies + j) as u64;
            notes.push((k.clone(), id % 2 == 1, rnote(k.addr(id % 2 == 1, id as u128), *v, rbase(seed, "rho", id), bytes32(seed, "rs", id))));
        }
    }
    let (root, owned) = plant(notes);
    let to = address(&Key::new(seed, 1).addr(false, 0));

    let builder = |sv: &[usize], ov: &[u64]| -> Result<Builder, String> {
        let mut b = Builder::new(BT::Tx { s: true, o: true, req: true }.real(), anchor(&root));
        for (j, i) in sv.iter().enumerate() {
            owned[i * copies + j].add_to(&mut b).map_err(|e| format!("spend rejected: {e:?}"))?;
        }
        for v in ov {
            b.add_output(None, to, NoteValue::from_raw(*v), None).map_err(|e| format!("output rejected: {e:?}"))?;
        }
        Ok(b)
    };
    let exact = |sv: &[usize], ov: &[u64]| -> (i128, bool) {
        let s: i128 = sv.iter().map(|i| vals[*i] as i128).sum();
        let o: i128 = ov.iter().map(|v| *v as i128).sum();
        (s - o, s <= u64::MAX as i128 && o <= u64::MAX as i128)
    };
    let checkall = |what: &str, b: &Builder, e: i128, pf: bool| -> Result<(), String> {
        let s = |r: OverflowError| r.to_string();
        let i = i64::try_from(e).ok();
        expect(&format!("{what}, i64"), &b.value_balance::<i64>().map_err(s), e, i, pf)?;
        expect(&format!("{what}, u64"), &b.value_balance::<u64>().map_err(s), e, i.and_then(|i| u64::try_from(i).ok()), pf)?;
        expect(&format!("{what}, i32"), &b.value_balance::<i32>().map_err(s), e, i.and_then(|i| i32::try_from(i).ok()), pf)?;
        expect(&format!("{what}, i128"), &b.value_balance::<i128>().map_err(s), e, i.map(i128::from), pf)?;
        expect(&format!("{what}, u8"), &b.value_balance::<u8>().map_err(s), e, i.and_then(|i| u8::try_from(i).ok()), pf)?;
        expect(&format!("{what}, money"), &b.value_balance::<Money>().map_err(s), e, i.and_then(|i| Money::try_from(i).ok()), pf)
    };

    let smax = x.q(2, 3);
    x.space("query", &|c: &mut Chooser| {
        let s = c.pick("spends", smax + 1);
        let o = c.pick("outputs", if s > 1 { 3 } else { 4 });
        let sv: Vec<usize> = (0..s).map(|_| c.pick("spend value", vals.len())).collect();
        let ov: Vec<u64> = (0..o).map(|_| *c.of("output value", &vals)).collect();
        let (e, pf) = exact(&sv, &ov);
        let b = builder(&sv, &ov)?;
        checkall("balance query", &b, e, pf)?;
        c.state(format!("{e} {pf} {s} {o}"));
        c.outcome(if i64::try_from(e).is_ok() { "fits" } else { "does not fit" });
        c.compared_n(6);
        Ok(())
    });
    let omax = x.q(2, 3);
    let bvals: Vec<usize> = x.q(vec![0, 1, 5, 6, 8], (0..vals.len()).collect());
    x.space("construction", &|c: &mut Chooser| {
        let s = c.pick("spends", 3);
        let o = c.pick("outputs", omax + 1);
        let sv: Vec<usize> = (0..s).map(|_| *c.of("spend value", &bvals)).collect();
        let ov: Vec<u64> = (0..o).map(|_| vals[*c.of("output value", &bvals)]).collect();
        let (e, pf) = exact(&sv, &ov);
        let b = builder(&sv, &ov)?;
        let i = i64::try_from(e).ok();
        let id = fid(&sv, &ov);
        let rng = DetRng::new(seed, "c01", id);
        let r: Result<Option<Built<i64>>, BuildError> = b.build(rng);
        if let Ok(Some((b, _))) = &r {
            // The commitments agree with the reported balance: their sum minus the commitment to
            // it is a multiple of the randomness base only if they sum to it, which the binding
            // signature demonstrates.
            let msg = bytes32(seed, "msg", id);
            let p = b.clone().prepare(DetRng::new(seed, "c01p", id), msg);
            ensure!(p.actions().len() == b.actions().len(), "prepare changed the bundle");
        }
        let flat = match r {
            Ok(Some((b, _))) => Ok(*b.value_balance()),
            Ok(None) => return Err("no bundle although one is required".into()),
            Err(BuildError::ValueSum(e)) => Err(e.to_string()),
            Err(e) => return Err(format!("construction failed with {e:?}")),
        };
        expect("construction, i64", &flat, e, i, pf)?;
        c.state(format!("{e} {pf} {s} {o}"));
        c.outcome(match (&flat, pf) {
            (Ok(_), _) => "built",
            (Err(_), true) => "rejected",
            (Err(_), false) => "rejected, partial sums out of range",
        });
        c.compared();
        Ok(())
    });
    // Long requests: every length, a distinguished value at every position.
    let lens: Vec<usize> = x.q(vec![8, 9, 16, 17, 33, 65], (4..=34).chain([64, 65, 66, 128, 129, 257]).collect());
    let built_lens: Vec<usize> = x.q(vec![9, 17, 33], vec![9, 16, 17, 32, 33, 64, 65, 130]);
    x.space("long", &|c: &mut Chooser| {
        let build = c.flag("construct");
        let n = *c.of("length", if build { &built_lens } else { &lens });
        let side = c.pick("side", 2);
        let at = c.pick("position", if build { 2 } else { n });
        let at = if build { [0, n - 1][at] } else { at };
        let big = *c.of("value there", &[1u64 << 40, i64::MAX as u64, u64::MAX - 1000]);
        let mut s = 0i128;
        let mut b = Builder::new(BT::Tx { s: true, o: true, req: true }.real(), anchor(&root));
        // A single spend suffices on the other side, as spends cost paths.
        if side == 1 {
            owned[6 * copies].add_to(&mut b).map_err(|e| format!("{e:?}"))?;
            s += vals[6] as i128;
        }
        let ov: Vec<u64> = (0..n).map(|i| if i == at { big } else { 1 + i as u64 % 5 }).collect();
        for v in &ov {
            b.add_output(None, to, NoteValue::from_raw(*v), None).map_err(|e| format!("{e:?}"))?;
        }
        let o: i128 = ov.iter().map(|v| *v as i128).sum();
        let e = s - o;
        checkall(&format!("balance of {n} outputs"), &b, e, true)?;
        if build {
            let r = match b.build::<i64>(DetRng::new(seed, "c01l", n as u64)) {
                Ok(Some((b, _))) => Ok(*b.value_balance()),
                Ok(None) => return Err("no bundle".into()),
                Err(BuildError::ValueSum(e)) => Err(e.to_string()),
                Err(e) => return Err(format!("construction failed with {e:?}")),
            };
            expect(&format!("construction with {n} outputs"), &r, e, i64::try_from(e).ok(), true)?;
        }
        c.state(format!("{n} {at} {e} {build}"));
        c.compared_n(6);
        Ok(())
    });
    // Far longer ones, with a distinguished value at a few places; the last of them constructed too.
    let far: Vec<usize> = x.q(vec![101, 129, 257, 513, 1025, 5000], vec![100, 101, 129, 200, 257, 300, 513, 1000, 1025, 2049, 4097, 5000, 70_000]);
    let far_built = x.q(310usize, 1030);
    x.bound(format!("queries for {far:?} outputs, construction with {far_built}"));
    x.space("far longer", &|c: &mut Chooser| {
        let build = c.flag("construct");
        let n = if build { far_built } else { *c.of("length", &far) };
        let places = [0, 99.min(n - 1), 128.min(n - 1), n / 2, n - 1];
        let at = if build { n - 1 } else { *c.of("place", &places) };
        let big = *c.of("value there", &[3u64 << 40, i64::MAX as u64]);
        let mut b = Builder::new(BT::Tx { s: true, o: true, req: true }.real(), anchor(&root));
        let mut o = 0i128;
        for i in 0..n {
            let v = if i == at { big } else { 1 + i as u64 % 5 };
            b.add_output(None, to, NoteValue::from_raw(v), None).map_err(|e| format!("{e:?}"))?;
            o += v as i128;
        }
        checkall(&format!("balance of {n} outputs"), &b, -o, true)?;
        if build {
            let r = match b.build::<i64>(DetRng::new(seed, "c01f", n as u64)) {
                Ok(Some((b, _))) => Ok(*b.value_balance()),
                Ok(None) => return Err("no bundle".into()),
                Err(BuildError::ValueSum(e)) => Err(e.to_string()),
                Err(e) => return Err(format!("construction failed with {e:?}")),
            };
            expect(&format!("construction with {n} outputs"), &r, -o, i64::try_from(-o).ok(), true)?;
        }
        c.state(format!("{n} {at} {o} {build}"));
        c.compared_n(6);
        Ok(())
    });
    let many = x.q(40u64, 130);
    let (mroot, mowned) = plant((0..many).map(|j| (k.clone(), j % 2 == 0, rnote(k.addr(j % 2 == 0, j as u128), 1 << (j % 50), rbase(seed, "mrho", j), bytes32(seed, "mrs", j)))).collect());
    x.space("long-spends", &|c: &mut Chooser| {
        let n = 1 + c.pick("spends-1", many as usize);
        let mut b = Builder::new(BT::Tx { s: true, o: true, req: true }.real(), anchor(&mroot));
        let mut e = 0i128;
        for w in &mowned[..n] {
            w.add_to(&mut b).map_err(|e| format!("{e:?}"))?;
            e += w.n.v as i128;
        }
        checkall(&format!("balance of {n} spends"), &b, e, true)?;
        if built_lens.contains(&n) {
            let r = b.build::<i64>(DetRng::new(seed, "c01m", n as u64)).map_err(|e| format!("{e:?}")).and_then(|b| b.map(|b| *b.0.value_balance()).ok_or("no bundle".into()));
            expect(&format!("construction with {n} spends"), &r, e, i64::try_from(e).ok(), true)?;
        }
        c.state(format!("{n} {e}"));
        c.compared_n(6);
        Ok(())
    });
    // Exact edges of every balance type, reached from both sides.
    let edges: Vec<(u64, u64)> = {
        let mut v = vec![];
        for m in [0u64, 127, 128, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, 2_100_000_000_000_000, 2_100_000_000_000_001, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX] {
            v.push((m, 0));
            v.push((0, m));
            v.push((m, 1));
            v.push((1, m));
            v.push((u64::MAX, u64::MAX - m));
            v.push((u64::MAX - m, u64::MAX));
        }
        v.sort();
        v.dedup();
        v
    };
    x.space("edges", &|c: &mut Chooser| {
        let (s, o) = *c.of("amounts", &edges);
        let kind = c.pick("type", 6);
        let n = rnote(k.addr(false, 5), s, rbase(seed, "edge", 1), bytes32(seed, "edge", 1));
        let (root, w) = plant(vec![(k.clone(), false, n)]);
        let mut b = Builder::new(BT::Tx { s: true, o: true, req: false }.real(), anchor(&root));
        w[0].add_to(&mut b).map_err(|e| format!("{e:?}"))?;
        b.add_output(None, to, NoteValue::from_raw(o), None).map_err(|e| format!("{e:?}"))?;
        let e = s as i128 - o as i128;
        checkall("edge balance query", &b, e, true)?;
        let i = i64::try_from(e).ok();
        let rng = DetRng::new(seed, "c01e", 0);
        macro_rules! go {
            ($t:ty, $name:expr) => {{
                let r = match b.build::<$t>(rng) {
                    Ok(Some((b, _))) => Ok(*b.value_balance()),
                    Ok(None) => return Err("no bundle".into()),
                    Err(BuildError::ValueSum(e)) => Err(e.to_string()),
                    Err(e) => return Err(format!("construction failed with {e:?}")),
                };
                expect(&format!("edge construction, {}", $name), &r, e, i.and_then(|i| <$t>::try_from(i).ok()), true)?;
            }};
        }
        match kind {
            0 => go!(i64, "i64"),
            1 => go!(u64, "u64"),
            2 => go!(i32, "i32"),
            3 => go!(i128, "i128"),
            4 => go!(u8, "u8"),
            _ => go!(Money, "money"),
        }
        c.state(format!("{e} {kind}"));
        c.compared_n(7);
        Ok(())
    });
    // Values of the arithmetic types themselves.
    x.space("arithmetic", &|c: &mut Chooser| {
        let n = 1 + c.pick("terms-1", x_terms());
        let mut e = 0i128;
        let mut ok = true;
        let mut acc = NoteValue::from_raw(0) - NoteValue::from_raw(0);
        let mut vs = vec![];
        for _ in 0..n {
            let a = *c.of("minuend", &[0u64, 1, 1 << 63, u64::MAX]);
            let b = *c.of("subtrahend", &[0u64, 1, 1 << 63, u64::MAX]);
            let t = NoteValue::from_raw(a) - NoteValue::from_raw(b);
            e += a as i128 - b as i128;
            vs.push(t);
            if ok {
                match acc + t {
                    Some(s) => {
                        ensure!(VALUE_SUM_RANGE.contains(&e), "a sum out of range ({e}) was represented");
                        acc = s;
                        eq!(i64::try_from(acc).ok(), i64::try_from(e).ok(), "conversion of {e}");
                    }
                    None => {
                        ensure!(!VALUE_SUM_RANGE.contains(&e), "a sum in range ({e}) was rejected");
                        ok = false;
                    }
                }
            }
        }
        let s1: Result<ValueSum, OverflowError> = vs.iter().sum();
        let s2: Result<ValueSum, OverflowError> = vs.into_iter().sum();
        eq!(s1.is_ok(), ok, "sum by reference");
        eq!(s2.is_ok(), ok, "sum");
        if let (Ok(a), Ok(b)) = (s1, s2) {
            ensure!(a == acc && b == acc, "sums differ from repeated addition");
        }
        c.state(format!("{e} {n} {ok}"));
        c.compared_n(3);
        Ok(())
    });
}
fn x_terms() -> usize {
    3
}
fn fid(sv: &[usize], ov: &[u64]) -> u64 {
    crate::engine::fnv(format!("{sv:?}{ov:?}").as_bytes())
}

// --------------------------------------------------------------------------------- C02

fn signed(m: &MaybeSigned) -> bool {
    matches!(m, MaybeSigned::Signature(_))
}

pub fn c02(x: &mut Ctx) {
    let seed = x.seed;
    let m = x.q(4usize, 8);
    x.bound(format!("9 bundle types x 0..={m} spends x 0..={m} outputs, through the builder and through direct construction, zero-valued and positive notes of both scopes; {} larger shapes; action count query for 0..=40 x 0..=40 and huge counts", x.q(4, 11)));
    x.assume("the reference's decryption identifies requested outputs; padded spends are recognised by their signatures after preparation");
    let k = Key::new(seed, 0);
    let k2 = Key::new(seed, 1);
    let large: Vec<(usize, usize)> = x.q(
        vec![(0, 17), (17, 0), (9, 20), (34, 3)],
        vec![(0, 9), (9, 0), (16, 17), (17, 16), (0, 33), (33, 0), (34, 3), (3, 65), (66, 64), (130, 0), (0, 130)],
    );
    let most = large.iter().map(|l| l.0).max().unwrap() as u64;
    let notes: Vec<_> = (0..most)
        .map(|j| (k.clone(), j % 2 == 1, rnote(k.addr(j % 2 == 1, j as u128), j * 3, rbase(seed, "rho", j), bytes32(seed, "rs", j))))
        .collect();
    let (root, owned) = plant(notes);
    let types = BT::all();

    x.space("count", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let big = [41usize, 1000, usize::MAX / 2, usize::MAX];
        let (s, o) = (c.pick("spends", 41 + big.len()), c.pick("outputs", 41 + big.len()));
        let s = if s > 40 { big[s - 41] } else { s };
        let o = if o > 40 { big[o - 41] } else { o };
        let r = t.real().num_actions(s, o);
        let ok = (s == 0 || t.spends()) && (o == 0 || t.outputs());
        eq!(r.ok(), ok.then(|| t.actions(s, o)), "actions of {t:?} for {s} spends and {o} outputs");
        eq!(t.real().flags().to_byte(), t.flag_byte(), "flags of {t:?}");
        c.state(format!("{t:?} {s} {o}"));
        c.compared_n(2);
        Ok(())
    });
    x.space("constants", &|c: &mut Chooser| {
        eq!(BundleType::DEFAULT, BT::Tx { s: true, o: true, req: false }.real(), "default bundle type");
        eq!(BundleType::DISABLED, BT::Tx { s: false, o: false, req: false }.real(), "disabled bundle type");
        c.state("constants");
        c.compared_n(2);
        Ok(())
    });
    let seeds = x.q(1u64, 3);
    x.space("shape", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let (mut s, mut o, mut direct, mut r) = (0, 0, false, 0);
        if c.flag("large") {
            let fit: Vec<_> = large.iter().copied().filter(|(s, o)| (t.spends() || *s == 0) && (t.outputs() || *o == 0)).collect();
            if !fit.is_empty() {
                (s, o) = *c.of("counts", &fit);
            }
            direct = (s + o) % 2 == 0;
        } else {
            if t.spends() {
                s = c.pick("spends", m + 1);
            }
            if t.outputs() {
                o = c.pick("outputs", m + 1);
            }
            direct |= c.flag("direct construction");
            r += c.pick("seed", seeds as usize) as u64;
        }
        // Zero-valued spends may come from anywhere, so a foreign anchor is fine for those.
        let foreign = s <= 1 && c.flag("other anchor");
        let root = if foreign { rbase(seed, "anchor", 3) } else { root };
        let rng = DetRng::new(seed, "c02", r);
        let outs: Vec<([u8; 43], u64, Option<[u8; 512]>)> =
            (0..o).map(|j| ([k2.addr(false, j as u128), k.addr(true, j as u128)][j % 2], 10 + j as u64, memo(j % 7))).collect();
        let ovk = |j: usize| (j % 3 != 0).then(|| OutgoingViewingKey::from(k.r.ext.ovk));
        let built: Option<Built<i64>> = if direct {
            let sp = owned[..s].iter().map(|w| w.spend_info()).collect();
            let ou = outs.iter().enumerate().map(|(j, (a, v, me))| OutputInfo::new(ovk(j), address(a), NoteValue::from_raw(*v), *me)).collect();
            bundle(rng, anchor(&root), t.real(), sp, ou).map_err(|e| format!("{e:?}"))?
        } else {
            let mut b = Builder::new(t.real(), anchor(&root));
            for w in &owned[..s] {
                w.add_to(&mut b).map_err(|e| format!("{e:?}"))?;
            }
            for (j, (a, v, me)) in outs.iter().enumerate() {
                b.add_output(ovk(j), address(a), NoteValue::from_raw(*v), *me).map_err(|e| format!("{e:?}"))?;
            }
            b.build(rng).map_err(|e| format!("{e:?}"))?
        };
        let n = t.actions(s, o);
        eq!(built.is_some(), n > 0, "a bundle is produced, {t:?} {s}+{o}");
        c.compared();
        c.outcome(format!("{n} actions"));
        c.state(format!("{t:?} {s} {o} {direct} {foreign} {r}"));
        let Some((b, meta)) = built else { return Ok(()) };
        eq!(b.actions().len(), n, "number of actions, {t:?} {s}+{o}");
        eq!(b.flags().to_byte(), t.flag_byte(), "flags");
        eq!(hx(b.anchor().to_bytes()), hx(root.to_repr()), "anchor");
        let want: i64 = owned[..s].iter().map(|w| w.n.v as i64).sum::<i64>() - outs.iter().map(|o| o.1 as i64).sum::<i64>();
        eq!(*b.value_balance(), want, "balance, so that padding adds nothing");
        // Which actions carry requested items.
        let mut sp = vec![false; n];
        let mut op = vec![false; n];
        for i in 0..s {
            let a = meta.spend_action_index(i).ok_or("requested spend has no action")?;
            ensure!(a < n && !sp[a], "spend {i} has no action of its own");
            sp[a] = true;
        }
        for i in 0..o {
            let a = meta.output_action_index(i).ok_or("requested output has no action")?;
            ensure!(a < n && !op[a], "output {i} has no action of its own");
            op[a] = true;
        }
        // Padded spends, and only those, are signed on preparation, before any key is used.
        let sighash = bytes32(seed, "sighash", r);
        let prepared = b.clone().prepare(DetRng::new(seed, "c02p", r), sighash);
        let requested_nf: Vec<_> = owned[..s].iter().map(|w| w.nf()).collect();
        for (i, a) in prepared.actions().iter().enumerate() {
            eq!(signed(a.authorization()), !sp[i], "action {i} is padded on the spend side");
            if let MaybeSigned::Signature(sig) = a.authorization() {
                let rk: [u8; 32] = a.rk().into();
                ensure!(refm::redpallas_verify(&refm::spend_auth_g(), &rk, &sighash, &sig.into()), "padding signature of action {i} is invalid");
            }
            eq!(requested_nf.contains(&a.nullifier().to_bytes()), sp[i], "nullifier of action {i} is a requested one");
            let p = rpub(a);
            let mut seen = false;
            for key in [&k, &k2] {
                for internal in [false, true] {
                    seen |= refm::decrypt_ivk(&p, &key.r.scope(internal).ivk).is_some();
                    if !op[i] {
                        let ovk = key.r.scope(internal).ovk;
                        ensure!(refm::decrypt_ovk(&p, &ovk).is_none(), "padding of action {i} is recoverable with a requested outgoing key");
                    }
                }
            }
            eq!(seen, op[i], "the note of action {i} belongs to a requested recipient");
            c.compared_n(3);
        }
        let mut all: Vec<_> = b.actions().iter().flat_map(|a| [a.nullifier().to_bytes(), a.cmx().to_bytes(), a.rk().into()]).collect();
        all.sort();
        all.dedup();
        eq!(all.len(), 3 * n, "distinct nullifiers, commitments and randomized keys");
        Ok(())
    });
    x.space("dummies", &|c: &mut Chooser| {
        // A padding output seen through the builder's public view.
        let i = c.pick("seed", 64) as u64;
        let mut rng = DetRng::new(seed, "dummy", i);
        let o = OutputInfo::dummy(&mut rng);
        eq!(OutputView::value::<u64>(&o), 0, "value of a padding output");
        let t = BT::Tx { s: false, o: true, req: false };
        let (b, meta) = bundle::<i64>(DetRng::new(seed, "dummyb", i), anchor(&Base::zero()), t.real(), vec![], vec![o])
            .map_err(|e| format!("{e:?}"))?
            .ok_or("no bundle")?;
        eq!(b.actions().len(), 2, "actions");
        eq!(*b.value_balance(), 0, "balance");
        let at = meta.output_action_index(0).ok_or("no index")?;
        c.state(b.actions()[at].cmx().to_bytes());
        c.compared_n(3);
        Ok(())
    });
    let _ = Flags::ENABLED;
}

// --------------------------------------------------------------------------------- C04

#[derive(Clone, Copy, PartialEq, Debug)]
enum Adm {
    Ok,
    Disabled,
    Fvk,
    Anchor,
}

/// A candidate spend: who claims it, the note's owner and value, and how the path is broken.
struct Cand {
    fvk: FullViewingKey,
    r: refm::Fvk,
    n: refm::RNote,
    path: RPath,
    what: String,
}

fn candidates(seed: u64, thorough: bool) -> (Base, Vec<Cand>, Vec<Owned>) {
    let (k, k2) = (Key::new(seed, 0), Key::new(seed, 1));
    let vals: Vec<u64> = if thorough { vec![0, 1, 2, 1 << 32, i64::MAX as u64, u64::MAX] } else { vec![0, 1, u64::MAX] };
    let mut notes = vec![];
    for v in &vals {
        for internal in [false, true] {
            let id = notes.len() as u64;
            notes.push((k.clone(), internal, rnote(k.addr(internal, id as u128), *v, rbase(seed, "rho", id), bytes32(seed, "rs", id))));
        }
    }
    let (root, owned) = plant(notes);
    // A viewing key that shares ak and nk with the owner but has another rivk, one with the internal
    // rivk as its external one, and one sharing the incoming key material of neither.
    let mut r_rivk = k.r.fvk();
    r_rivk.rivk += refm::Scalar::one();
    let r_int = refm::internal_fvk(&k.r.fvk());
    let mut r_ak = k.r.fvk();
    r_ak.ak = k2.r.ak;
    let mut r_nk = k.r.fvk();
    r_nk.nk = k2.r.nk;
    let fvks: Vec<(&str, refm::Fvk)> =
        vec![("owner", k.r.fvk()), ("stranger", k2.r.fvk()), ("other rivk", r_rivk), ("internal rivk", r_int), ("other ak", r_ak), ("other nk", r_nk)];
    let mut out = vec![];
    for (name, r) in &fvks {
        let fvk = FullViewingKey::from_bytes(&refm::fvk_bytes(r)).expect("viewing key");
        for (i, w) in owned.iter().enumerate() {
            let other = &owned[(i + 1) % owned.len()];
            let mut paths = vec![("right path", w.path.clone()), ("path of another note", other.path.clone())];
            let mut p = w.path.clone();
            p.pos ^= 1;
            paths.push(("sibling position", p));
            let mut p = w.path.clone();
            p.pos ^= 1 << 31;
            paths.push(("position with the top bit flipped", p));
            let mut p = w.path.clone();
            p.path[31] += Base::one();
            paths.push(("path with a wrong top node", p));
            let mut p = w.path.clone();
            p.path[0] += Base::one();
            paths.push(("path with a wrong leaf", p));
            for (pn, p) in paths {
                // Notes at the address of the owner, at a mangled address, and with another value.
                for alt in 0..3 {
                    let mut n = w.n.clone();
                    let nn = match alt {
                        0 => "note",
                        1 => {
                            n.addr[42] ^= 0x80;
                            "note with a negated address"
                        }
                        _ => {
                            n.rseed[7] ^= 1;
                            "note with another seed"
                        }
                    };
                    out.push(Cand {
                        fvk: fvk.clone(),
                        r: r.clone(),
                        n,
                        path: p.clone(),
                        what: format!("{name}, {pn}, {nn}, value {}", w.n.v),
                    });
                }
            }
        }
    }
    (root, out, owned)
}
impl Cand {
    fn admissible(&self, t: &BT, root: &Base) -> Adm {
        if !t.spends() {
            return Adm::Disabled;
        }
        if refm::scope_of(&self.r, &self.n.addr).is_none() {
            return Adm::Fvk;
        }
        if self.n.v != 0 && self.path.root(&self.n.cmx()) != *root {
            return Adm::Anchor;
        }
        Adm::Ok
    }
    fn add(&self, b: &mut Builder) -> Adm {
        match b.add_spend(self.fvk.clone(), note(&self.n), self.path.real()) {
            Ok(()) => Adm::Ok,
            Err(SpendError::SpendsDisabled) => Adm::Disabled,
            Err(SpendError::FvkMismatch) => Adm::Fvk,
            Err(SpendError::AnchorMismatch) => Adm::Anchor,
        }
    }
}
fn view(b: &Builder) -> (Vec<u64>, Vec<u64>) {
    (
        b.spends().iter().map(|s| InputView::value::<u64>(s)).collect(),
        b.outputs().iter().map(|o| OutputView::value::<u64>(o)).collect(),
    )
}

pub fn c04(x: &mut Ctx) {
    let seed = x.seed;
    let (root, cands, owned) = candidates(seed, x.thorough());
    x.bound(format!("{} candidate spends (6 viewing keys x notes of both scopes and edge values x 6 paths x 3 note alterations) x 9 bundle types x 2 anchors, individually; all sequences of up to {} operations over 10 representative ones per bundle type, with the builder's views, balance and result after each; direct construction with the same rules; a refused spend at every position of up to {} spends", cands.len(), x.q(3, 4), x.q(33, 130)));
    x.assume("C15, C18, C19 justify the reference's ownership, path and commitment computations");
    let types = BT::all();
    let roots = [root, rbase(seed, "anchor", 9)];

    x.space("spends", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let ai = if t.spends() { c.pick("anchor", 2) } else { 0 };
        let i = if t.spends() { c.pick("candidate", cands.len()) } else { c.pick("candidate", 18) * (cands.len() / 18) };
        let d = &cands[i];
        let mut b = Builder::new(t.real(), anchor(&roots[ai]));
        let want = d.admissible(&t, &roots[ai]);
        let got = d.add(&mut b);
        eq!(got, want, "{} ({t:?}, anchor {ai})", d.what);
        let n = if got == Adm::Ok { vec![d.n.v] } else { vec![] };
        eq!(view(&b), (n, vec![]), "builder after {}", d.what);
        eq!(
            SpendInfo::new(d.fvk.clone(), note(&d.n), d.path.real()).is_some(),
            refm::scope_of(&d.r, &d.n.addr).is_some(),
            "spend information for {}",
            d.what
        );
        c.state(format!("{i} {t:?} {ai}"));
        c.outcome(format!("{want:?}"));
        c.compared_n(3);
        Ok(())
    });
    let oc = x.outcomes("spends");
    if !x.has_violation() && !x.is_replay() {
        x.aggregate("spends", if oc.len() == 4 { Ok(()) } else { Err(format!("not every verdict was reached: {oc:?}")) });
    }

    let find = |w: &str| cands.iter().position(|d| d.what == w).unwrap_or_else(|| panic!("candidate {w}"));
    let vmax = u64::MAX;
    let reps = [
        find("owner, right path, note, value 1"),
        find(&format!("owner, right path, note, value {vmax}")),
        find("owner, path with a wrong top node, note, value 0"),
        find("owner, sibling position, note, value 1"),
        find("stranger, right path, note, value 1"),
        find("stranger, path of another note, note, value 1"),
    ];
    let to = address(&Key::new(seed, 4).addr(false, 1));
    let depth = x.q(3, 4);
    x.space("sequences", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let n = 1 + c.pick("operations-1", depth);
        let mut b = Builder::new(t.real(), anchor(&root));
        let (mut sv, mut ov) = (vec![], vec![]);
        let mut hist = String::new();
        for _ in 0..n {
            let op = c.pick("operation", reps.len() + 3);
            hist += &format!(" {op}");
            if op < reps.len() {
                let d = &cands[reps[op]];
                let want = d.admissible(&t, &root);
                eq!(d.add(&mut b), want, "{} after{hist} ({t:?})", d.what);
                if want == Adm::Ok {
                    sv.push(d.n.v);
                }
            } else {
                let v = [0u64, 1, u64::MAX][op - reps.len()];
                let r = b.add_output(None, to, NoteValue::from_raw(v), None);
                eq!(r, if t.outputs() { Ok(()) } else { Err(OutputError) }, "output after{hist} ({t:?})");
                if t.outputs() {
                    ov.push(v);
                }
            }
            eq!(view(&b), (sv.clone(), ov.clone()), "builder after{hist} ({t:?})");
        }
        let (s, o): (i128, i128) = (sv.iter().map(|v| *v as i128).sum(), ov.iter().map(|v| *v as i128).sum());
        let (ns, no) = (sv.len(), ov.len());
        let in_range = s <= u64::MAX as i128 && o <= u64::MAX as i128;
        let fits = i64::try_from(s - o).ok();
        match b.build::<i64>(DetRng::new(seed, "c04", crate::engine::fnv(hist.as_bytes()))) {
            Ok(None) => eq!(t.actions(ns, no), 0, "no bundle after{hist}"),
            Ok(Some((bu, _))) => {
                eq!(bu.actions().len(), t.actions(ns, no), "actions after{hist}");
                eq!(Some(*bu.value_balance()), fits, "balance after{hist}");
            }
            Err(BuildError::ValueSum(_)) => ensure!(fits.is_none() || !in_range, "building after{hist} overflowed"),
            Err(e) => return Err(format!("building after{hist} failed: {e:?}")),
        }
        c.state(format!("{t:?} {sv:?} {ov:?}"));
        c.compared_n(2 * n as u64 + 2);
        Ok(())
    });

    // Direct construction: spends are given as SpendInfo, so ownership is already established.
    let okc: Vec<usize> = (0..cands.len()).filter(|i| refm::scope_of(&cands[*i].r, &cands[*i].n.addr).is_some()).collect();
    let pick: Vec<usize> = x.q(okc.iter().copied().step_by(3).collect(), okc.clone());
    x.space("direct", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let first = c.flag("a valid spend first");
        let last = c.flag("a valid spend last");
        let no = c.pick("outputs", 3);
        let i = if t.spends() { *c.of("candidate", &pick) } else { pick[c.pick("candidate", 4) * (pick.len() / 4)] };
        let ai = c.pick("anchor", 2);
        let d = &cands[i];
        let mk = || SpendInfo::new(d.fvk.clone(), note(&d.n), d.path.real());
        let mut sp = vec![];
        let mut adm = vec![];
        let good = &owned[2];
        ensure!(good.n.v != 0, "fixture");
        if first {
            sp.push(good.spend_info());
            adm.push(ai == 0);
        }
        sp.push(mk().ok_or("owned note refused")?);
        adm.push(d.n.v == 0 || d.path.root(&d.n.cmx()) == roots[ai]);
        if last {
            sp.push(owned[3].spend_info());
            adm.push(ai == 0);
        }
        let ou = (0..no).map(|_| OutputInfo::new(None, to, NoteValue::from_raw(1), None)).collect();
        // Which of several violated rules is reported is not specified here.
        let mut want = vec![];
        if !t.spends() {
            want.push("SpendsDisabled");
        }
        if adm.contains(&false) {
            want.push("AnchorMismatch");
        }
        if no > 0 && !t.outputs() {
            want.push("OutputsDisabled");
        }
        if want.is_empty() {
            want.push("accepted");
        }
        let r = bundle::<i64>(DetRng::new(seed, "c04d", i as u64), anchor(&roots[ai]), t.real(), sp, ou);
        let got = match &r {
            Ok(_) => "accepted",
            Err(BuildError::SpendsDisabled) => "SpendsDisabled",
            Err(BuildError::OutputsDisabled) => "OutputsDisabled",
            Err(BuildError::AnchorMismatch) => "AnchorMismatch",
            // Large values overflow the balance only after admission.
            Err(BuildError::ValueSum(_)) => "accepted",
            Err(e) => return Err(format!("unexpected {e:?}")),
        };
        ensure!(want.contains(&got), "direct construction with {} ({t:?}, anchor {ai}, outputs {no}): {got}, expected {want:?}", d.what);
        c.state(format!("{t:?} {i} {ai} {no} {first} {last}"));
        c.outcome(got);
        c.compared();
        Ok(())
    });
    // Long requests: a refused spend at every position among accepted ones, directly and in a builder.
    let longs: Vec<usize> = x.q(vec![9, 17, 33], vec![9, 16, 17, 32, 33, 64, 65, 130]);
    let lmax = *longs.last().unwrap();
    let k = Key::new(seed, 0);
    let (lroot, lowned) = plant((0..lmax as u64).map(|j| (k.clone(), j % 3 == 1, rnote(k.addr(j % 3 == 1, j as u128), 1 + j, rbase(seed, "lrho", j), bytes32(seed, "lrs", j)))).collect());
    x.space("long", &|c: &mut Chooser| {
        let n = *c.of("spends", &longs);
        let at = c.pick("refused", n + 1);
        let direct = c.flag("direct construction");
        let t = BT::Tx { s: true, o: true, req: false };
        let wrong = |w: &Owned| {
            let mut p = w.path.clone();
            p.path[31] += Base::one();
            p.real()
        };
        if direct {
            let sp = lowned[..n].iter().enumerate().map(|(i, w)| if i == at { SpendInfo::new(w.key.fvk.clone(), note(&w.n), wrong(w)).expect("owned") } else { w.spend_info() }).collect();
            if at == n {
                // Accepting builds every action; once is enough.
                let ou = vec![OutputInfo::new(None, to, NoteValue::from_raw(1), None)];
                let (b, _) = bundle::<i64>(DetRng::new(seed, "c04l", 0), anchor(&lroot), t.real(), sp, ou).map_err(|e| format!("{n} spends: {e:?}"))?.ok_or("no bundle")?;
                eq!(b.actions().len(), n, "actions");
            } else {
                match bundle::<i64>(DetRng::new(seed, "c04l", 0), anchor(&lroot), t.real(), sp, vec![]) {
                    Err(BuildError::AnchorMismatch) => (),
                    r => return Err(format!("spend {at} of {n} has another anchor: {:?}", r.map(|_| "accepted"))),
                }
            }
        } else {
            let mut b = Builder::new(t.real(), anchor(&lroot));
            let mut want = vec![];
            for (i, w) in lowned[..n].iter().enumerate() {
                if i == at {
                    eq!(b.add_spend(w.key.fvk.clone(), note(&w.n), wrong(w)), Err(SpendError::AnchorMismatch), "spend {i} of {n}");
                    eq!(b.add_spend(Key::new(seed, 1).fvk, note(&w.n), w.path.real()), Err(SpendError::FvkMismatch), "spend {i} of {n}");
                    eq!(b.add_output(None, to, NoteValue::from_raw(i as u64), None), Ok(()), "output after {i} spends");
                } else {
                    eq!(w.add_to(&mut b), Ok(()), "spend {i} of {n}");
                    want.push(w.n.v);
                }
            }
            eq!(view(&b), (want.clone(), (at < n).then_some(at as u64).into_iter().collect()), "builder after {n} spends");
            let sum = want.iter().sum::<u64>() as i64 - if at < n { at as i64 } else { 0 };
            eq!(b.value_balance::<i64>().ok(), Some(sum), "balance after {n} spends");
        }
        c.state(format!("{n} {at} {direct}"));
        c.compared_n(n as u64);
        Ok(())
    });
    // Every kind of operation after many accepted ones: the same spend again and again, or outputs.
    let before: Vec<usize> = x.q(vec![3, 4, 7, 8, 16, 33, 101, 257], (3..=20).chain([31, 32, 33, 64, 65, 100, 101, 128, 200, 257, 1030]).collect());
    x.bound(format!("after {before:?} accepted operations of one kind, every representative operation"));
    x.space("after many", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let n = *c.of("accepted before", &before);
        let spends = c.flag("spends");
        let op = c.pick("operation", reps.len() + 2);
        if (spends && !t.spends()) || (!spends && !t.outputs()) || (spends && n > 40 && !matches!(t, BT::Tx { s: true, o: true, req: false })) {
            c.outcome("not applicable");
            return Ok(());
        }
        let mut b = Builder::new(t.real(), anchor(&root));
        let (mut sv, mut ov) = (vec![], vec![]);
        for i in 0..n {
            if spends {
                // One and the same note most of the time.
                let d = &cands[reps[if i % 5 == 3 { 2 } else { 0 }]];
                eq!(d.add(&mut b), Adm::Ok, "spend {i} ({t:?})");
                sv.push(d.n.v);
            } else {
                eq!(b.add_output(None, to, NoteValue::from_raw(i as u64), None), Ok(()), "output {i} ({t:?})");
                ov.push(i as u64);
            }
        }
        let what = format!("operation {op} after {n} accepted {} ({t:?})", if spends { "spends" } else { "outputs" });
        if op < reps.len() {
            let d = &cands[reps[op]];
            let want = d.admissible(&t, &root);
            eq!(d.add(&mut b), want, "{what}: {}", d.what);
            if want == Adm::Ok {
                sv.push(d.n.v);
            }
        } else {
            let v = (op - reps.len()) as u64 * u64::MAX;
            eq!(b.add_output(None, to, NoteValue::from_raw(v), None), if t.outputs() { Ok(()) } else { Err(OutputError) }, "{what}");
            if t.outputs() {
                ov.push(v);
            }
        }
        eq!(view(&b), (sv.clone(), ov.clone()), "{what}: builder");
        c.outcome("decided");
        c.state(what);
        c.compared_n(n as u64 + 2);
        Ok(())
    });
    x.space("direct-outputs", &|c: &mut Chooser| {
        let t = *c.of("type", &types);
        let no = c.pick("outputs", 5);
        let ou = (0..no).map(|j| OutputInfo::new(None, to, NoteValue::from_raw(j as u64), None)).collect();
        let r = bundle::<i64>(DetRng::new(seed, "c04o", 0), anchor(&root), t.real(), vec![], ou);
        match r {
            Ok(b) => {
                ensure!(no == 0 || t.outputs(), "outputs accepted by {t:?}");
                eq!(b.map(|b| b.0.actions().len()).unwrap_or(0), t.actions(0, no), "actions");
            }
            Err(BuildError::OutputsDisabled) => ensure!(no > 0 && !t.outputs(), "outputs refused by {t:?}"),
            Err(e) => return Err(format!("unexpected {e:?}")),
        }
        c.state(format!("{t:?} {no}"));
        c.compared();
        Ok(())
    });
    let _: Option<Anchor> = None;
}
