//! C18: the note commitment tree.

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::refm::{self, Base};
use crate::{ensure, eq};
use ff::{Field, PrimeField};
use incrementalmerkletree::{
    frontier::{CommitmentTree, Frontier},
    witness::IncrementalWitness,
    Hashable, Level, Position,
};
use orchard::{
    note::ExtractedNoteCommitment,
    tree::{MerkleHashOrchard, MerklePath},
    Anchor,
};

fn cmx(b: &Base) -> ExtractedNoteCommitment {
    Option::from(ExtractedNoteCommitment::from_bytes(&b.to_repr())).expect("cmx")
}

/// Field elements exercising every bit of the 255-bit encoding.
fn elements(seed: u64, all_bits: bool) -> Vec<Base> {
    let mut v = vec![Base::zero(), Base::one(), Base::from(2), Base::from(3), -Base::one(), -Base::from(2)];
    for b in 0..255u64 {
        if all_bits || b % 25 == 4 || b == 254 {
            v.push(Base::from(2).pow_vartime([b]));
        }
    }
    v.push(refm::empty_roots()[7]);
    for i in 0..4 {
        v.push(rbase(seed, "node", i));
    }
    v
}

pub fn c18(x: &mut Ctx) {
    let seed = x.seed;
    x.bound("combine at all 32 levels over pairs of field elements covering every bit of left and right, and over pairs made from every small number; roots of every single-bit, edge and small position over 5 path shapes and every altered level; frontiers, witnesses and converted paths at all those positions; incremental trees of every size up to the bound with a witness for every position and every moment of its creation");
    x.assume("the hash-to-curve of the Sinsemilla generators and Pallas arithmetic are trusted; Sinsemilla and the tree are written out in refm.rs");
    let els = elements(seed, x.thorough());
    let bits: Vec<Base> = (0..255u64).map(|b| Base::from(2).pow_vartime([b])).collect();

    x.space("combine", &|c: &mut Chooser| {
        let lv = c.pick("level", 32) as u8;
        let (l, r) = (*c.of("left", &els), *c.of("right", &els));
        let got = MerkleHashOrchard::combine(Level::from(lv), &mho(&l), &mho(&r)).to_bytes();
        eq!(hx(got), hx(refm::merkle_combine(lv, &l, &r).to_repr()), "parent at level {lv}");
        c.state([&[lv], &got[..]].concat());
        c.compared();
        Ok(())
    });
    x.space("combine-every-bit", &|c: &mut Chooser| {
        let lv = *c.of("level", &[0u8, 1, 16, 31]);
        let b = *c.of("bit", &bits);
        let o = *c.of("other", &[Base::zero(), -Base::one()]);
        let (l, r) = if c.flag("bit on the right") { (o, b) } else { (b, o) };
        let got = MerkleHashOrchard::combine(Level::from(lv), &mho(&l), &mho(&r)).to_bytes();
        eq!(hx(got), hx(refm::merkle_combine(lv, &l, &r).to_repr()), "parent at level {lv}");
        c.state([&[lv], &got[..]].concat());
        c.compared();
        Ok(())
    });
    // Every small node and position.
    let small = x.q(1usize << 11, 1 << 15);
    x.space("small", &|c: &mut Chooser| {
        let lv = *c.of("level", &[0u8, 13, 31]);
        let i = c.pick("number", small) as u64;
        let (l, r) = if c.flag("swapped") { (-Base::from(i), Base::from(i * i + 7)) } else { (Base::from(i * i + 7), -Base::from(i)) };
        let got = MerkleHashOrchard::combine(Level::from(lv), &mho(&l), &mho(&r)).to_bytes();
        eq!(hx(got), hx(refm::merkle_combine(lv, &l, &r).to_repr()), "parent at level {lv} of numbers made from {i}");
        c.state([&[lv], &got[..]].concat());
        c.compared();
        Ok(())
    });
    x.space("empty-roots", &|c: &mut Chooser| {
        let lv = c.pick("level", 33);
        let got = MerkleHashOrchard::empty_root(Level::from(lv as u8)).to_bytes();
        eq!(hx(got), hx(refm::empty_roots()[lv].to_repr()), "empty root at level {lv}");
        if lv == 0 {
            eq!(hx(MerkleHashOrchard::empty_leaf().to_bytes()), hx(refm::empty_leaf().to_repr()), "empty leaf");
        }
        if lv == 32 {
            eq!(hx(Anchor::empty_tree().to_bytes()), hx(refm::empty_roots()[32].to_repr()), "anchor of the empty tree");
            let f = Frontier::<MerkleHashOrchard, 32>::empty();
            eq!(hx(f.root().to_bytes()), hx(refm::empty_roots()[32].to_repr()), "root of the empty frontier");
        }
        c.state(got);
        c.compared();
        Ok(())
    });

    // Branch-free selection and the order the hashes are kept in by callers.
    let hs: Vec<Base> = [Base::zero(), Base::one(), Base::from(2), -Base::one(), rbase(seed, "sel", 0), rbase(seed, "sel", 1)].to_vec();
    x.space("selection", &|c: &mut Chooser| {
        use subtle::ConditionallySelectable;
        let (a, b) = (*c.of("a", &hs), *c.of("b", &hs));
        let s = c.flag("choice");
        let (ha, hb) = (MerkleHashOrchard::from_bytes(&a.to_repr()).unwrap(), MerkleHashOrchard::from_bytes(&b.to_repr()).unwrap());
        let want = if s { b } else { a };
        let got = MerkleHashOrchard::conditional_select(&ha, &hb, (s as u8).into());
        eq!(hx(got.to_bytes()), hx(want.to_repr()), "selection between {} and {} by {s}", hx(a.to_repr()), hx(b.to_repr()));
        c.state([&[s as u8], &a.to_repr()[..], &b.to_repr()[..]].concat());
        c.compared();
        Ok(())
    });

    let mut positions: Vec<u32> = (0..32).flat_map(|b| [1u32 << b, !(1u32 << b), (1u32 << b) - 1]).collect();
    positions.extend([u32::MAX, 0xaaaa_aaaa, 0x5555_5555, 5, 6, 10, 12345678]);
    positions.sort();
    positions.dedup();
    let shape = |s: usize, leaf: &Base| -> [Base; 32] {
        let mut p = [Base::zero(); 32];
        for (l, e) in p.iter_mut().enumerate() {
            *e = match s {
                0 => refm::empty_roots()[l],
                1 => rbase(seed, "sibling", l as u64),
                2 => -Base::one(),
                3 => Base::from(l as u64),
                _ => *leaf,
            };
        }
        p
    };
    let leaves = [Base::zero(), Base::from(2), -Base::one(), rbase(seed, "leaf", 0)];
    x.space("roots", &|c: &mut Chooser| {
        let pos = *c.of("position", &positions);
        let leaf = *c.of("leaf", &leaves);
        let path = shape(c.pick("path", 5), &leaf);
        let want = refm::merkle_root(&leaf, pos, &path);
        let p = RPath { pos, path };
        let got = p.real().root(cmx(&leaf));
        eq!(hx(got.to_bytes()), hx(want.to_repr()), "root for position {pos:#x}");
        ensure!(got == anchor(&want), "anchors compare unequal");
        c.state([&pos.to_le_bytes()[..], &want.to_repr()].concat());
        c.compared_n(2);
        Ok(())
    });
    let alt_pos: Vec<u32> = x.q(vec![0, 0x8000_0001, 0x1357_9bdf], positions.iter().copied().step_by(5).collect());
    x.space("binding", &|c: &mut Chooser| {
        let pos = *c.of("position", &alt_pos);
        let leaf = leaves[3];
        let path = shape(1, &leaf);
        let want = refm::merkle_root(&leaf, pos, &path);
        let (mut p2, mut path2, mut leaf2) = (pos, path, leaf);
        match c.pick("alter", 4) {
            0 => p2 ^= 1 << c.pick("position bit", 32),
            1 => {
                let l = c.pick("level", 32);
                path2[l] += Base::one();
            }
            2 => leaf2 = -leaf2,
            _ => {
                let l = c.pick("level", 31);
                path2.swap(l, l + 1);
            }
        }
        let got = RPath { pos: p2, path: path2 }.real().root(cmx(&leaf2));
        eq!(hx(got.to_bytes()), hx(refm::merkle_root(&leaf2, p2, &path2).to_repr()), "root of the altered path");
        ensure!(got != anchor(&want), "an altered path leads to the same root");
        c.state(got.to_bytes());
        c.compared_n(2);
        Ok(())
    });

    // Trees of every order of magnitude: a frontier at the position, its root, its witness, and the
    // library's path turned into one of this crate.
    x.space("deep", &|c: &mut Chooser| {
        let pos = *c.of("position", &positions);
        let leaf = leaves[3];
        let mut path = shape(0, &leaf);
        let mut ommers = vec![];
        for l in 0..32 {
            if pos >> l & 1 == 1 {
                path[l] = rbase(seed, "ommer", l as u64);
                ommers.push(mho(&path[l]));
            }
        }
        let want = refm::merkle_root(&leaf, pos, &path);
        let f = Frontier::<MerkleHashOrchard, 32>::from_parts(Position::from(pos as u64), mho(&leaf), ommers).map_err(|_| "frontier")?;
        eq!(hx(f.root().to_bytes()), hx(want.to_repr()), "root of the frontier at {pos:#x}");
        let t = CommitmentTree::from_frontier(&f);
        eq!(hx(t.root().to_bytes()), hx(want.to_repr()), "root of the tree ending at {pos:#x}");
        let mp = IncrementalWitness::from_tree(t).path().ok_or("no path")?;
        eq!(hx(MerklePath::from(mp).root(cmx(&leaf)).to_bytes()), hx(want.to_repr()), "root of the witness at {pos:#x}");
        let path = shape(1, &leaf);
        let mp = incrementalmerkletree::MerklePath::<MerkleHashOrchard, 32>::from_parts(path.iter().map(mho).collect(), Position::from(pos as u64)).map_err(|_| "path")?;
        let want = refm::merkle_root(&leaf, pos, &path);
        eq!(hx(mp.root(mho(&leaf)).to_bytes()), hx(want.to_repr()), "root of the library's path at {pos:#x}");
        eq!(hx(MerklePath::from(mp).root(cmx(&leaf)).to_bytes()), hx(want.to_repr()), "root of the converted path at {pos:#x}");
        c.state(format!("{pos}"));
        c.compared_n(5);
        Ok(())
    });

    // The incremental tree library on top of these hashes: every size, every witnessed
    // position, and the witness followed through every later append.
    let n = x.q(18, 40);
    let lv: Vec<Base> = (0..n as u64).map(|i| rbase(seed, "inc", i)).collect();
    x.space("incremental", &|c: &mut Chooser| {
        let at = c.pick("witnessed position", n);
        let leaf = |i: usize| mho(&lv[i]);
        let mut t = CommitmentTree::<MerkleHashOrchard, 32>::empty();
        let mut f = Frontier::<MerkleHashOrchard, 32>::empty();
        for i in 0..=at {
            t.append(leaf(i)).map_err(|_| "append failed")?;
            ensure!(f.append(leaf(i)), "frontier append failed");
        }
        let mut w = IncrementalWitness::from_tree(t.clone());
        for size in at + 1..=n {
            let (root, paths) = refm::tree(&lv[..size]);
            eq!(hx(t.root().to_bytes()), hx(root.to_repr()), "tree of {size} leaves");
            eq!(hx(f.root().to_bytes()), hx(root.to_repr()), "frontier of {size} leaves");
            eq!(hx(w.root().to_bytes()), hx(root.to_repr()), "witness root, {size} leaves");
            let mp = w.path().ok_or("no path")?;
            eq!(
                mp.path_elems().iter().map(|e| hx(e.to_bytes())).collect::<Vec<_>>(),
                paths[at].iter().map(|e| hx(e.to_repr())).collect::<Vec<_>>(),
                "authentication path of {at} among {size}"
            );
            let p = MerklePath::from(mp);
            let got = p.root(cmx(&lv[at]));
            eq!(hx(got.to_bytes()), hx(root.to_repr()), "root of the path of {at} among {size}");
            for other in 0..size {
                if other != at {
                    ensure!(p.root(cmx(&lv[other])) != anchor(&root), "the path of {at} accepts leaf {other}");
                    if other > 3 && !x_thorough(size) {
                        break;
                    }
                }
            }
            c.state([&[at as u8, size as u8][..], &root.to_repr()].concat());
            c.compared_n(5);
            if size < n {
                t.append(leaf(size)).map_err(|_| "append failed")?;
                ensure!(f.append(leaf(size)), "frontier append failed");
                w.append(leaf(size)).map_err(|_| "witness append failed")?;
            }
        }
        Ok(())
    });
}
fn x_thorough(size: usize) -> bool {
    size % 8 == 0
}
