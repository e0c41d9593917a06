//! C24: authorization transitions.

use crate::ctx::Ctx;
use crate::engine::Chooser;
use crate::fx::*;
use crate::p::commit::{anchors, gen_action, Amount, BALANCES};
use crate::refm::RAction;
use crate::{ensure, eq};
use orchard::{
    bundle::{Authorization, Flags},
    Bundle,
};
use std::cell::RefCell;

/// Not `Clone`, so that each authorization is used at most once.
#[derive(Debug, PartialEq)]
struct SpendA(u32);
#[derive(Debug, PartialEq)]
struct A(u32);
impl Authorization for A {
    type SpendAuth = SpendA;
}
#[derive(Debug, PartialEq)]
struct SpendB(u32, u32);
#[derive(Debug, PartialEq)]
struct B(u32, u32);
impl Authorization for B {
    type SpendAuth = SpendB;
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    /// per-action step: number of earlier events, bundle authorization, action authorization
    Spend(usize, u32, u32),
    Bundle(usize, u32),
}

fn bundle(acts: &[RAction], ids: &[u32], fl: u8, bal: i64, anchor: &[u8; 32], id: u32) -> Bundle<A, i64> {
    let v: Vec<_> = acts.iter().zip(ids).map(|(a, i)| action_from(a, SpendA(*i)).unwrap()).collect();
    Bundle::from_parts(
        nonempty::NonEmpty::from_vec(v).unwrap(),
        Flags::from_byte(fl).unwrap(),
        bal,
        Option::from(orchard::Anchor::from_bytes(*anchor)).unwrap(),
        A(id),
    )
}

fn effects<T: Authorization>(b: &Bundle<T, i64>, acts: &[RAction], fl: u8, bal: i64, anchor: &[u8; 32]) -> Result<(), String> {
    eq!(b.actions().len(), acts.len(), "number of actions");
    for (i, (g, w)) in ractions(b).iter().zip(acts).enumerate() {
        eq!(hx(g.nf), hx(w.nf), "nullifier of action {i}");
        eq!(hx(g.rk), hx(w.rk), "rk of action {i}");
        eq!(hx(g.cmx), hx(w.cmx), "cmx of action {i}");
        eq!(hx(g.cv), hx(w.cv), "cv_net of action {i}");
        eq!(hx(g.epk), hx(w.epk), "epk of action {i}");
        eq!(hx(&g.enc), hx(&w.enc), "enc_ciphertext of action {i}");
        eq!(hx(&g.out), hx(&w.out), "out_ciphertext of action {i}");
    }
    eq!(b.flags().to_byte(), fl, "flags");
    eq!(*b.value_balance(), bal, "balance");
    eq!(hx(b.anchor().to_bytes()), hx(anchor), "anchor");
    Ok(())
}

pub fn c24(x: &mut Ctx) {
    let seed = x.seed;
    let maxn = x.q(6, 9);
    x.bound(format!("bundles of 1..={maxn} actions (repeated actions included) x every subset of failing steps reachable in order, for each of the four transition operations; bundles of up to 257 (thorough 1025) actions with every single failing step; distinct and repeated per-action authorizations; all flags; 12 balances"));
    x.assume("none beyond the correctness of the accessors, which C09 and C17 check independently through bytes");
    let pool: Vec<RAction> = (0..10).map(|i| gen_action(seed, i)).collect();
    let an = anchors(seed);

    // Every step of every transition may succeed or fail: the explorer takes both branches at
    // every call the implementation makes, so the tree is exactly the set of failure histories.
    x.space("try_map_authorization", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", maxn);
        let fl = c.pick("flags", 4) as u8;
        let same = c.flag("equal actions and authorizations");
        let acts: Vec<RAction> = (0..n).map(|i| pool[if same { 0 } else { i }].clone()).collect();
        let ids: Vec<u32> = (0..n).map(|i| if same { 7 } else { 100 - 3 * i as u32 }).collect();
        let b = bundle(&acts, &ids, fl, -9, &an[4], 42);
        let ch = RefCell::new(&mut *c);
        let mut log: Vec<Ev> = vec![];
        let r = b.try_map_authorization(
            &mut log,
            |log, a: &A, s: SpendA| {
                let k = log.len();
                log.push(Ev::Spend(k, a.0, s.0));
                if k > n + 2 || ch.borrow_mut().flag("step fails") {
                    Err(k)
                } else {
                    Ok(SpendB(s.0, k as u32))
                }
            },
            |log, a: A| {
                let k = log.len();
                log.push(Ev::Bundle(k, a.0));
                if ch.borrow_mut().flag("bundle step fails") {
                    Err(k)
                } else {
                    Ok(B(a.0, k as u32))
                }
            },
        );
        drop(ch);
        let failed = match &r {
            Ok(_) => n,
            Err(k) => *k,
        };
        let want: Vec<Ev> = (0..n)
            .map(|k| Ev::Spend(k, 42, ids[k]))
            .chain([Ev::Bundle(n, 42)])
            .take(failed + 1)
            .collect();
        eq!(log, want, "sequence of steps");
        if let Ok(b) = &r {
            effects(b, &acts, fl, -9, &an[4])?;
            for (i, a) in b.actions().iter().enumerate() {
                eq!(*a.authorization(), SpendB(ids[i], i as u32), "authorization of action {i}");
            }
            eq!(*b.authorization(), B(42, n as u32), "bundle authorization");
        }
        c.state(format!("{n} {fl} {same} {:?}", r.as_ref().map(|_| ()).map_err(|k| *k)));
        c.outcome(format!("{n}:{}", r.map(|_| "ok".to_string()).unwrap_or_else(|k| format!("step {k} failed"))));
        c.compared_n(1 + n as u64);
        Ok(())
    });
    x.space("map_authorization", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 10);
        let fl = c.pick("flags", 4) as u8;
        let same = c.flag("equal actions and authorizations");
        let bal = *c.of("balance", &BALANCES);
        let a = *c.of("anchor", &an);
        let acts: Vec<RAction> = (0..n).map(|i| pool[if same { 0 } else { i }].clone()).collect();
        let ids: Vec<u32> = (0..n).map(|i| if same { 7 } else { 100 - 3 * i as u32 }).collect();
        let b = bundle(&acts, &ids, fl, bal, &a, 5);
        let mut log: Vec<Ev> = vec![];
        let b = b.map_authorization(
            &mut log,
            |log, a: &A, s: SpendA| {
                log.push(Ev::Spend(log.len(), a.0, s.0));
                SpendB(s.0, log.len() as u32)
            },
            |log, a: A| {
                log.push(Ev::Bundle(log.len(), a.0));
                B(a.0, log.len() as u32)
            },
        );
        let want: Vec<Ev> = (0..n).map(|k| Ev::Spend(k, 5, ids[k])).chain([Ev::Bundle(n, 5)]).collect();
        eq!(log, want, "sequence of steps");
        effects(&b, &acts, fl, bal, &a)?;
        for (i, a) in b.actions().iter().enumerate() {
            eq!(*a.authorization(), SpendB(ids[i], i as u32 + 1), "authorization of action {i}");
        }
        eq!(*b.authorization(), B(5, n as u32 + 1), "bundle authorization");
        c.state(format!("{n} {fl} {same} {bal} {}", hx(a)));
        c.compared_n(2 + n as u64);
        Ok(())
    });
    // Larger bundles: every failing position, or none.
    let lens: Vec<usize> = if x.thorough() { vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025] } else { vec![15, 16, 17, 33, 64, 65, 129, 257] };
    x.space("long", &|c: &mut Chooser| {
        let n = *c.of("actions", &lens);
        let fallible = c.flag("fallible");
        let fail = if fallible { c.pick("failing step", n + 2) } else { n + 1 };
        let acts: Vec<RAction> = (0..n).map(|i| pool[i % pool.len()].clone()).collect();
        let ids: Vec<u32> = (0..n as u32).map(|i| 100_000 - 3 * i).collect();
        let b = bundle(&acts, &ids, 2, 77, &an[3], 5);
        let mut log: Vec<Ev> = vec![];
        let r: Result<Bundle<B, i64>, usize> = if fallible {
            b.try_map_authorization(
                &mut log,
                |log, a: &A, s: SpendA| {
                    let k = log.len();
                    log.push(Ev::Spend(k, a.0, s.0));
                    if k == fail { Err(k) } else { Ok(SpendB(s.0, k as u32)) }
                },
                |log, a: A| {
                    let k = log.len();
                    log.push(Ev::Bundle(k, a.0));
                    if k == fail { Err(k) } else { Ok(B(a.0, k as u32)) }
                },
            )
        } else {
            Ok(b.map_authorization(
                &mut log,
                |log, a: &A, s: SpendA| {
                    log.push(Ev::Spend(log.len(), a.0, s.0));
                    SpendB(s.0, log.len() as u32 - 1)
                },
                |log, a: A| {
                    log.push(Ev::Bundle(log.len(), a.0));
                    B(a.0, log.len() as u32 - 1)
                },
            ))
        };
        let want: Vec<Ev> = (0..n).map(|k| Ev::Spend(k, 5, ids[k])).chain([Ev::Bundle(n, 5)]).take(fail.min(n) + 1).collect();
        eq!(log, want, "sequence of steps for {n} actions");
        match r {
            Err(k) => eq!(k, fail, "failing step of {n} actions"),
            Ok(b) => {
                ensure!(fail > n, "{n} actions: step {fail} failed and the transition did not");
                effects(&b, &acts, 2, 77, &an[3])?;
                for (i, a) in b.actions().iter().enumerate() {
                    eq!(*a.authorization(), SpendB(ids[i], i as u32), "authorization of action {i} of {n}");
                }
                eq!(*b.authorization(), B(5, n as u32), "bundle authorization");
                let b: Bundle<B, Amount> = b.try_map_value_balance::<_, (), _>(|v| Ok(Amount(v))).unwrap();
                eq!(b.actions().len(), n, "number of actions after the balance was mapped");
            }
        }
        c.state(format!("{n} {fallible} {fail}"));
        c.compared_n(2);
        Ok(())
    });
    x.space("try_map_value_balance", &|c: &mut Chooser| {
        let n = 1 + c.pick("actions-1", 4);
        let fl = c.pick("flags", 4) as u8;
        let bal = *c.of("balance", &BALANCES);
        let ids: Vec<u32> = (0..n as u32).map(|i| 50 - i).collect();
        let b = bundle(&pool[..n], &ids, fl, bal, &an[5], 1);
        let fail = c.flag("conversion fails");
        let mut calls = vec![];
        let r = b.try_map_value_balance(|v| {
            calls.push(v);
            if fail {
                Err("no")
            } else {
                Ok(Amount(v))
            }
        });
        eq!(calls, vec![bal], "conversion calls");
        match r {
            Err(e) => {
                ensure!(fail, "a successful conversion failed");
                eq!(e, "no", "error");
            }
            Ok(b) => {
                ensure!(!fail, "a failed conversion succeeded");
                eq!(b.value_balance().0, bal, "converted balance");
                for (i, a) in b.actions().iter().enumerate() {
                    eq!(*a.authorization(), SpendA(ids[i]), "authorization of action {i}");
                }
                eq!(*b.authorization(), A(1), "bundle authorization");
                let b: Bundle<A, i64> = b.try_map_value_balance::<_, (), _>(|v| Ok(v.0)).unwrap();
                effects(&b, &pool[..n], fl, bal, &an[5])?;
            }
        }
        c.state(format!("{n} {fl} {bal} {fail}"));
        c.compared_n(3);
        Ok(())
    });
    x.space("actions", &|c: &mut Chooser| {
        let i = c.pick("action", 10);
        let kind = c.pick("operation", 2);
        let fail = kind == 1 && c.flag("step fails");
        let a = action_from(&pool[i], SpendA(i as u32)).unwrap();
        let mut calls = 0;
        let r: Result<orchard::Action<SpendB>, u8> = if kind == 0 {
            Ok(a.map(|s| {
                calls += 1;
                SpendB(s.0, 1)
            }))
        } else {
            a.try_map(|s| {
                calls += 1;
                if fail {
                    Err(9u8)
                } else {
                    Ok(SpendB(s.0, 1))
                }
            })
        };
        eq!(calls, 1, "calls of the step");
        match r {
            Ok(a) => {
                ensure!(!fail, "a failed step succeeded");
                eq!(*a.authorization(), SpendB(i as u32, 1), "authorization");
                let (g, w) = (raction(&a), &pool[i]);
                eq!(
                    (hx(g.nf), hx(g.rk), hx(g.cmx), hx(g.cv), hx(g.epk), hx(&g.enc), hx(&g.out)),
                    (hx(w.nf), hx(w.rk), hx(w.cmx), hx(w.cv), hx(w.epk), hx(&w.enc), hx(&w.out)),
                    "effects of the action"
                );
                eq!(hx(a.rho().to_bytes()), hx(w.nf), "rho of the action");
            }
            Err(e) => {
                ensure!(fail, "a successful step failed");
                eq!(e, 9u8, "error");
            }
        }
        c.state([i as u8, kind as u8, fail as u8]);
        c.compared_n(3);
        Ok(())
    });
}
