//! Reverse quotes, injected failures, migrations.
use crate::big::{big, muldiv, E18};
use crate::check::{Cx, V};
use crate::engine::{record_json, reverse, Mon, Step};
use crate::gen::Profile;
use crate::sim::{self, swap_calc, Op, To};
use crate::world::{bin, ExecOut, Fault, World, CODE_FACTORY, CODE_PAIR, CODE_PAIR2, CODE_ROUTER};
use cosmwasm_std::{CosmosMsg, WasmMsg};
use serde_json::{json, Value};

// ---------------------------------------------------------------- P05

/// P05
pub fn reverse_quote(cx: &mut Cx) -> V {
    let each = 1u128 << 124;
    let natives = if cx.r.chance(1, 3) { vec![("uaura".to_string(), each)] } else { vec![] };
    let mut w = World::new(&natives);
    w.start(&mut cx.r);
    let d: Vec<u8> = (0..2).map(|_| cx.r.pick(&[0u8, 6, 18])).collect();
    let setup = (|| -> Result<usize, String> {
        w.deploy()?;
        if !natives.is_empty() {
            w.register_native(0, 6)?;
        } else {
            w.token(d[0], each, None, None)?;
        }
        w.token(d[1], each, None, None)?;
        let a = if cx.r.chance(1, 2) { [0, 1] } else { [1, 0] };
        w.create_pair(0, a, vec![0], [0, 0])
    })();
    let p = match setup {
        Ok(p) => p,
        Err(e) => {
            cx.count("deployments refused");
            cx.note(e);
            return Ok(());
        }
    };
    let acct = w.pairs[p].acct;
    // user 7 offers; the reserves come from the others
    for a in 0..2 {
        for u in 5..7 {
            sim::run(&mut w, &Op::Transfer { asset: a, from: u, to: To::Acct(7), amt: each - 1 });
        }
    }
    w.observe();
    let base = w.fork();
    for _ in 0..20 {
        w.restore(&base);
        let near = cx.r.chance(1, 3);
        let r0 = cx.r.log(126).max(1);
        let r1 = if near { (r0 / 2).saturating_add(cx.r.upto(r0)) & ((1 << 126) - 1) } else { cx.r.log(126) }.max(1);
        let res = [r0, r1];
        for side in 0..2 {
            let mut left = res[side];
            for u in 0..5 {
                let n = left.min(each - 1);
                if n > 0 {
                    let asset = w.pairs[p].a[side];
                    let o = sim::run(&mut w, &Op::Transfer { asset, from: u, to: To::Acct(acct), amt: n });
                    o.res.map_err(|e| format!("a transfer was refused: {e}"))?;
                    left -= n;
                }
            }
        }
        w.observe();
        let res = w.pools(&w.snap, p);
        let f = w.fork();
        crate::engine::no_foreign_quote(cx, &w, p, "reverse_simulation")?;
        for _ in 0..5 {
            let s = cx.r.idx(2); // the asked side
            let (o, a) = (res[1 - s], res[s]);
            let edge = muldiv(a, 997, 1000).sat128();
            let ask = match cx.r.below(10) {
                0 => edge,
                1 => edge.saturating_add(1),
                2 => edge.saturating_sub(1),
                3 => a,
                4 => a.saturating_add(cx.r.log(100)),
                5 => cx.r.log(127),
                6 => edge.saturating_sub(cx.r.log(128 - edge.leading_zeros() as u64 + 1)),
                _ => cx.r.upto(edge),
            };
            cx.note(format!("reserves {res:?}, asking for {ask} of side {s}"));
            let q = reverse(&w, p, w.pairs[p].a[s], ask);
            cx.eval();
            let eps = big(ask).div(&big(E18));
            // what has to leave before the fee: ask / 0.997
            let g = muldiv(ask, 1000, 997);
            let over = g.sat_sub(&eps).sat_sub(&big(1u64)) >= big(a);
            let q = match q {
                Err(_) => {
                    cx.count("asks refused");
                    if over || g >= big(a) {
                        continue;
                    }
                    // attainable: refused only if the offer or its value does not fit 128 bits
                    let x = big(o).mul(&big(a)).div(&big(a).sub(&g)).sat_sub(&big(o));
                    let v = x.add(&big(1u64)).mul(&big(a)).div(&big(o));
                    if x.bits() <= 128 && v.bits() <= 128 {
                        return Err(format!("reserves {res:?}: asking for {ask} of side {s} ({g} before the fee) was refused"));
                    }
                    continue;
                }
                Ok(q) => q,
            };
            if over {
                return Err(format!("reserves {res:?}: {ask} of side {s} cannot be had, but an offer of {} was named", q[0]));
            }
            let [x, spread, fee] = q;
            // the parts named with it
            let want_fee = muldiv(ask, 3, 997);
            if big(fee) > want_fee || big(fee).add(&big(1u64)).add(&eps) < want_fee {
                return Err(format!("reserves {res:?}: a fee of {fee} was named for {ask} of side {s} instead of {want_fee}"));
            }
            let value = big(x).mul(&big(a)).div(&big(o));
            let want = value.sat_sub(&g);
            let tol = big(x).div(&big(E18)).add(&eps).add(&big(3u64));
            if big(spread) > want.add(&tol) || big(spread).add(&tol) < want {
                return Err(format!("reserves {res:?}: a spread of {spread} was named for {ask} of side {s} instead of {want}"));
            }
            // pay x, then x + 1
            for (k, n) in [(0u128, x), (1, x.saturating_add(1))] {
                if n == 0 {
                    continue;
                }
                let oa = w.pairs[p].a[1 - s];
                let paid = if !w.is_native(oa) && n <= w.snap.bal[oa][7] {
                    let out = sim::run(
                        &mut w,
                        &Op::Swap { pair: p, side: 1 - s, who: 7, amt: n, owner: None, to: To::Acct(6), belief: None, maxs: None },
                    );
                    if !out.ok() {
                        let fits = swap_calc(o, a, n).map_or(false, |c| c.1.bits() <= 128);
                        w.restore(&f);
                        if fits && k == 0 {
                            // a payout of zero is a refusal of the token, not of the pool
                            if swap_calc(o, a, n).map_or(0, |c| c.0) > 0 {
                                return Err(format!("reserves {res:?}: the offer of {n} named for {ask} was refused: {}", out.err()));
                            }
                        }
                        continue;
                    }
                    let aa = w.pairs[p].a[s];
                    let got = w.balance(aa, 6).saturating_sub(f_bal(&w, aa, 6));
                    w.restore(&f);
                    cx.count("offers executed");
                    got
                } else {
                    match crate::engine::simulate(&w, p, oa, n) {
                        Ok(v) => v[0],
                        Err(_) => continue,
                    }
                };
                cx.eval();
                if k == 0 && paid > ask {
                    return Err(format!("reserves {res:?}: {n} was named for {ask} of side {s}, but pays {paid}"));
                }
                if k == 1 && big(paid).add(&eps).add(&big(1u64)) < big(ask) {
                    return Err(format!("reserves {res:?}: {x} was named for {ask} of side {s}, but even {n} pays only {paid}"));
                }
                if x > 0 {
                    cx.distinct(&format!("{res:?}{s}{ask}"));
                    cx.sample(|| format!("reserves {res:?}: {x} named for {ask} of side {s}; offering {n} pays {paid}"));
                }
            }
        }
    }
    Ok(())
}
fn f_bal(w: &World, a: usize, u: usize) -> u128 {
    // the balance sheet was observed before the swap
    w.snap.bal[a][u]
}

// ---------------------------------------------------------------- P30

fn with_faults(cx: &mut Cx, w: &mut World, what: &str, max: usize, run: &mut dyn FnMut(&mut World) -> ExecOut) -> V {
    let f = w.fork();
    let plain = run(w);
    let after = w.fork();
    w.restore(&f);
    let mut all: Vec<Fault> = vec![];
    for k in 0..plain.msgs {
        all.push(Fault::MsgBefore(k));
        all.push(Fault::MsgAfter(k));
    }
    for k in 0..plain.queries {
        all.push(Fault::Query(k));
    }
    if !plain.ok() {
        cx.eval();
        cx.count("operations refused by themselves");
        if plain.writes > 0 && !w.same_state(&f) {
            return Err(format!("{what} was refused, but left something behind"));
        }
        return Ok(());
    }
    if all.len() > max {
        cx.r.shuffle(&mut all);
        all.truncate(max);
    }
    for x in all {
        w.hooks.borrow_mut().fault = Some(x);
        let o = run(w);
        w.hooks.borrow_mut().fault = None;
        cx.eval();
        if !o.fired {
            return Err(format!("{what} is not repeatable: {x:?} was not reached"));
        }
        cx.count(match x {
            Fault::MsgBefore(_) => "messages failed before",
            Fault::MsgAfter(_) => "messages failed after",
            Fault::Query(_) => "queries failed",
        });
        if o.ok() {
            return Err(format!("{what} was accepted although part of it failed ({x:?}); trace: {}", o.trace.join(" | ")));
        }
        if !w.same_state(&f) {
            return Err(format!("{what} failed ({x:?}), but changed {:?}", w.state_diff(&f)));
        }
        cx.distinct(&format!("{what}{x:?}"));
    }
    // as if nothing had happened
    let again = run(w);
    if again.res != plain.res || !w.same_state(&after) {
        return Err(format!("{what} does something else after a failed attempt"));
    }
    w.restore(&f);
    Ok(())
}

pub struct Faults;
impl Mon for Faults {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        *p = Profile { swap: 24, provide: 18, withdraw: 14, route: 26, forge: 4, transfer: 2, ledger: 2, router_misc: 1, steps: 24, ..p.clone() };
    }
    fn start(&mut self, cx: &mut Cx, w: &mut World) -> V {
        // the making of a pool, and the owner's errands
        let f = w.accts[w.factory].clone();
        let owner = w.owner;
        for _ in 0..3 {
            let (x, y) = (cx.r.idx(w.assets.len()), cx.r.idx(w.assets.len()));
            if x == y || sim::Sim::new(w).find_pair(x, y).is_some() {
                continue;
            }
            let m = w.create_pair_msg([x, y], &[0, 1], [1, 2]);
            let by = cx.r.idx(w.users);
            cx.count("creations");
            with_faults(cx, w, &format!("creating a pool {m}"), 60, &mut |w| w.exec(by, &f, &m, &[]))?;
        }
        let i = cx.r.idx(w.pairs.len());
        let p = w.pair_addr(i);
        let m = json!({"migrate_pair": {"contract": p, "code_id": CODE_PAIR2}});
        with_faults(cx, w, "migrating a pool", 60, &mut |w| w.exec(owner, &f, &m, &[]))?;
        let m = json!({"update_config": {"owner": w.accts[0], "pair_code_id": 3}});
        with_faults(cx, w, "changing the settings", 60, &mut |w| w.exec(owner, &f, &m, &[]))
    }
    fn before(&mut self, cx: &mut Cx, w: &mut World, op: &Op) -> V {
        if matches!(op, Op::Blocks(_)) {
            return Ok(());
        }
        let max = if cx.thorough { 400 } else { 40 };
        cx.sample(|| format!("{op:?} with each of its messages and queries failing in turn"));
        with_faults(cx, w, &format!("{op:?}"), max, &mut |w| sim::run(w, op))
    }
    fn after(&mut self, _: &mut Cx, _: &mut World, _: &Step) -> V {
        Ok(())
    }
}

// ---------------------------------------------------------------- P31

#[derive(Default)]
pub struct Migration {
    done: bool,
}
pub fn views(w: &World) -> Vec<Result<Value, String>> {
    let (f, r) = (w.accts[w.factory].clone(), w.accts[w.router].clone());
    let mut v = vec![
        w.ask(&f, &json!({"config": {}})),
        w.ask(&f, &json!({"pairs": {"limit": 30}})),
        w.ask(&r, &json!({"config": {}})),
    ];
    for (a, x) in w.assets.iter().enumerate() {
        if w.is_native(a) {
            v.push(w.ask(&f, &json!({"native_token_decimals": {"denom": x.name}})));
        }
    }
    for p in 0..w.pairs.len() {
        let c = w.pair_addr(p);
        v.push(w.ask(&c, &json!({"pair": {}})));
        v.push(w.ask(&c, &json!({"pool": {}})));
        for s in 0..2 {
            let a = w.asset(w.pairs[p].a[s], 12345);
            v.push(w.ask(&c, &json!({"simulation": {"offer_asset": a}})));
            v.push(w.ask(&c, &json!({"reverse_simulation": {"ask_asset": a}})));
        }
        v.push(w.ask(&f, &json!({"pair": {"asset_infos": [w.info(w.pairs[p].a[0]), w.info(w.pairs[p].a[1])]}})));
    }
    v
}
impl Migration {
    /// migrate something; who may not, cannot
    fn migrate(&mut self, cx: &mut Cx, w: &mut World) -> V {
        let f = w.accts[w.factory].clone();
        let r = w.accts[w.router].clone();
        let before = views(w);
        let bal = w.snap.clone();
        let fork = w.fork();
        let what = cx.r.below(8);
        let i = cx.r.idx(w.pairs.len());
        let p = w.pair_addr(i);
        let direct = |c: &str, code: u64| CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: c.into(), new_code_id: code, msg: bin(&json!({})) });
        let stranger = cx.r.idx(w.users - 1);
        // strangers first
        cx.eval();
        let o = w.exec(stranger, &f, &json!({"migrate_pair": {"contract": p, "code_id": CODE_PAIR2}}), &[]);
        let mut bad = o.ok();
        for (c, code) in [(&p, CODE_PAIR2), (&f, CODE_FACTORY), (&r, CODE_ROUTER)] {
            bad |= w.exec_raw(stranger, direct(c, code)).ok();
        }
        // not even the owner goes round the factory for a pool
        let owner = w.owner;
        bad |= w.exec_raw(owner, direct(&p, CODE_PAIR2)).ok();
        if bad || !w.same_state(&fork) {
            return Err("somebody migrated a contract who may not".into());
        }
        let out = match what {
            0..=3 => w.exec(owner, &f, &json!({"migrate_pair": {"contract": p, "code_id": cx.r.pick(&[Some(CODE_PAIR2), None, Some(CODE_PAIR)])}}), &[]),
            4 | 5 => w.exec_raw(owner, direct(&f, CODE_FACTORY)),
            _ => w.exec_raw(owner, direct(&r, CODE_ROUTER)),
        };
        if !out.ok() {
            return Err(format!("the owner's migration was refused: {}", out.err()));
        }
        cx.note(format!("migrated ({what}, pool {i})"));
        cx.count(match what {
            0..=3 => "migrations of a pool",
            4 | 5 => "migrations of the factory",
            _ => "migrations of the router",
        });
        w.observe();
        cx.eval();
        if w.snap != bal {
            return Err("a migration moved balances".into());
        }
        let after = views(w);
        for (x, y) in before.iter().zip(&after) {
            if x != y && (x.is_ok() || y.is_ok()) {
                return Err(format!("before a migration {x:?} was stated, after it {y:?}"));
            }
        }
        let _ = record_json(w, i);
        self.done = true;
        Ok(())
    }
}
impl Mon for Migration {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.steps = 40;
    }
    fn before(&mut self, cx: &mut Cx, w: &mut World, op: &Op) -> V {
        if matches!(op, Op::Blocks(_)) || !cx.r.chance(1, 3) {
            return Ok(());
        }
        // the same operation with and without a migration just before it
        let f = w.fork();
        let plain = sim::run(w, op);
        w.observe();
        let (snap, v) = (w.snap.clone(), views(w));
        w.restore(&f);
        for _ in 0..cx.r.range(1, 3) {
            self.migrate(cx, w)?;
        }
        let out = sim::run(w, op);
        w.observe();
        cx.eval();
        if out.ok() != plain.ok() || (out.ok() && out.res != plain.res) {
            return Err(format!("{op:?}: {:?} before a migration, {:?} after it", plain.res, out.res));
        }
        if w.snap != snap || views(w).iter().zip(&v).any(|(x, y)| x != y && (x.is_ok() || y.is_ok())) {
            return Err(format!("{op:?} ends in another state after a migration"));
        }
        cx.count("operations compared");
        if out.ok() {
            cx.distinct(&format!("{op:?}{:?}", snap.bal));
            cx.sample(|| format!("{op:?}: the same with and without a migration just before"));
        }
        w.restore(&f);
        // and the history goes on with a migrated contract now and then
        if cx.r.chance(1, 3) {
            self.migrate(cx, w)?;
        }
        Ok(())
    }
    fn after(&mut self, _: &mut Cx, _: &mut World, _: &Step) -> V {
        Ok(())
    }
}
