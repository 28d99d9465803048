//! Hostile tokens in pools and routes: everybody who does not deal with them is untouched, everybody who
//! does loses no more than what he put in.
use crate::check::{Cx, V};
use crate::engine::{record_json, who};
use crate::gen::{self, Profile};
use crate::big::big;
use crate::rng::Rng;
use crate::sim::{self, steps_json, Entry, Op, To};
use crate::world::{bin, AssetRec, ExecOut, Kind, Snap, World, CODE_EVIL};
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn evil_token(w: &mut World, decimals: u8) -> Result<usize, String> {
    let bals: Vec<Value> = (0..w.users).map(|u| json!({"address": w.accts[u], "amount": (1u128 << 100).to_string()})).collect();
    let o = w.owner;
    let a = w.instantiate(o, CODE_EVIL, &json!({"decimals": decimals, "initial_balances": bals}), None)?;
    w.assets.push(AssetRec {
        kind: Kind::Cw20,
        name: w.accts[a].clone(),
        decimals,
        evil: true,
        lp_of: None,
        minter: None,
        cap: None,
    });
    Ok(w.assets.len() - 1)
}

struct Host {
    w: World,
    evil: Vec<usize>,
    records: Vec<Value>,
    config: Value,
    list: Value,
}

impl Host {
    fn new(cx: &mut Cx) -> Result<Host, String> {
        let r = &mut cx.r;
        let mut w = if r.chance(1, 2) { World::new(&[("uaura".into(), 1u128 << 90)]) } else { World::new(&[]) };
        w.start(r);
        w.deploy()?;
        let nn = w.assets.len();
        for i in 0..nn {
            w.register_native(i, 6)?;
        }
        for _ in 0..3 {
            let d = r.pick(&[6u8, 8, 18]);
            let each = 1u128 << r.range(40, 100);
            w.token(d, each, None, None)?;
        }
        let honest = w.assets.len();
        let mut evil = vec![];
        for _ in 0..r.range(1, 2) {
            let d = r.pick(&[0u8, 6, 18, 255]);
            evil.push(evil_token(&mut w, d)?);
        }
        let all = w.assets.len();
        let mut combos = vec![];
        for i in 0..all {
            for j in 0..i {
                combos.push([i, j]);
            }
        }
        r.shuffle(&mut combos);
        // one honest pool at least, one mixed pool at least
        let h = combos.iter().position(|c| c[0] < honest).unwrap();
        combos.swap(0, h);
        let m = combos.iter().position(|c| c[0] >= honest && c[1] < honest).unwrap();
        combos.swap(1, m);
        for c in combos.into_iter().take(r.range(3, 6) as usize) {
            let c = if r.chance(1, 2) { c } else { [c[1], c[0]] };
            w.create_pair(0, c, vec![0, 1], [0, 0])?;
        }
        for p in 0..w.pairs.len() {
            for side in 0..2 {
                let a = w.pairs[p].a[side];
                if w.is_native(a) || w.assets[a].evil {
                    continue;
                }
                for u in 0..w.users {
                    let (t, s) = (w.assets[a].name.clone(), w.pair_addr(p));
                    w.exec(u, &t, &json!({"increase_allowance": {"spender": s, "amount": (u128::MAX / 2).to_string()}}), &[]);
                }
            }
        }
        w.observe();
        // first provisions; the hostile tokens get something honest of their own
        for p in 0..w.pairs.len() {
            let a = w.pairs[p].a;
            let d = [0, 1].map(|i| r.range(1000, 1 << 36) as u128 * if w.assets[a[i]].evil { 3 } else { 1 });
            let funds: Vec<(usize, u128)> = (0..2).filter(|i| w.is_native(a[*i])).map(|i| (a[i], d[i])).collect();
            let op = Op::Provide { pair: p, who: 0, listed: [(a[0], d[0]), (a[1], d[1])], tol: None, recv: To::Default, funds };
            sim::run(&mut w, &op).res.map_err(|e| format!("first provision: {e}"))?;
        }
        for e in &evil {
            for a in nn..honest {
                let (t, n) = (w.assets[a].name.clone(), w.assets[*e].name.clone());
                w.exec(2, &t, &json!({"transfer": {"recipient": n, "amount": r.range(1, 1 << 34).to_string()}}), &[]);
            }
        }
        w.observe();
        let f = w.accts[w.factory].clone();
        let records = (0..w.pairs.len()).map(|p| record_json(&w, p)).collect();
        let config = w.ask(&f, &json!({"config": {}}))?;
        let list = w.ask(&f, &json!({"pairs": {"limit": 30}}))?;
        Ok(Host { w, evil, records, config, list })
    }
    fn honest_pool(&self, p: usize) -> bool {
        !self.w.pairs[p].a.iter().any(|a| self.w.assets[*a].evil)
    }
    /// a call a hostile token makes while it is called
    fn call(&self, cx: &mut Cx, me: usize) -> Value {
        let w = &self.w;
        let r = &mut cx.r;
        let mine = w.accts.iter().position(|a| *a == w.assets[me].name).unwrap();
        let pair = r.idx(w.pairs.len());
        let pr = &w.pairs[pair];
        let victim = w.accts[r.idx(w.users)].clone();
        let n = match r.below(4) {
            0 => r.log(40),
            1 => 1,
            _ => r.log(30),
        }
        .to_string();
        let hook = |v: Value| bin(&v);
        let honest: Vec<usize> = (0..w.assets.len()).filter(|a| !w.assets[*a].evil && !w.is_native(*a) && w.assets[*a].lp_of.is_none()).collect();
        let h = r.pick(&honest);
        let swap = json!({"swap": {"belief_price": null, "max_spread": null, "to": victim}});
        let s = r.idx(2);
        let router = w.accts[w.router].clone();
        let factory = w.accts[w.factory].clone();
        match r.below(21) {
            // its own honest money, through an honest door
            0 | 1 => {
                let a = if w.is_native(pr.a[s]) || w.assets[pr.a[s]].evil { h } else { pr.a[s] };
                json!({"to": w.assets[a].name, "msg": {"send": {"contract": w.accts[pr.acct], "amount": n, "msg": hook(json!({"swap": {}}))}}})
            }
            2 => json!({"to": w.assets[h].name, "msg": {"transfer": {"recipient": w.accts[pr.acct], "amount": n}}}),
            3 => json!({"to": w.assets[h].name, "msg": {"send": {"contract": router, "amount": n,
                "msg": hook(json!({"execute_swap_operations": {"operations": steps_json(w, &[(pr.a[s], pr.a[1 - s])]), "minimum_receive": minimum(r), "to": w.accts[mine]}}))}}}),
            // what the router holds right now
            4..=6 => {
                let mut steps = vec![(pr.a[s], pr.a[1 - s])];
                if r.chance(1, 3) {
                    let q = &w.pairs[r.idx(w.pairs.len())];
                    steps.push((q.a[s], q.a[1 - s]));
                }
                let to = if r.chance(1, 4) { victim } else { w.accts[mine].clone() };
                json!({"to": router, "msg": {"execute_swap_operations": {"operations": steps_json(w, &steps), "to": to, "minimum_receive": minimum(r)}}})
            }
            7 => json!({"to": router, "msg": {"execute_swap_operation": {"operation": steps_json(w, &[(pr.a[s], pr.a[1 - s])])[0], "to": w.accts[mine]}}}),
            // notifications of tokens that never came
            8..=10 => json!({"to": w.accts[pr.acct], "msg": {"receive": {"sender": w.accts[mine], "amount": n, "msg": hook(swap)}}}),
            11 => json!({"to": w.accts[pr.acct], "msg": {"receive": {"sender": if r.chance(1, 2) { victim.clone() } else { w.accts[mine].clone() }, "amount": n, "msg": hook(json!({"withdraw_liquidity": {}}))}}}),
            // somebody else's money
            19 => json!({"to": w.accts[pr.acct], "msg": {"receive": {"sender": w.accts[mine], "amount": r.log(40).to_string(), "msg": hook(json!({"withdraw_liquidity": {}}))}}}),
            12 => json!({"to": w.assets[h].name, "msg": {"transfer_from": {"owner": victim, "recipient": w.accts[mine], "amount": n}}}),
            13 => json!({"to": w.assets[h].name, "msg": {"send_from": {"owner": victim, "contract": w.accts[pr.acct], "amount": n, "msg": hook(json!({"swap": {}}))}}}),
            14 => json!({"to": w.accts[pr.acct], "msg": {"provide_liquidity": {"assets": [w.asset(pr.a[0], r.log(20) + 1), w.asset(pr.a[1], r.log(20) + 1)],
                "slippage_tolerance": null, "receiver": w.accts[mine]}}}),
            15 => json!({"to": w.assets[pr.lp].name, "msg": {"mint": {"recipient": w.accts[mine], "amount": n}}}),
            16 => json!({"to": factory, "msg": {"update_config": {"owner": w.accts[mine]}}}),
            17 => json!({"to": factory, "msg": {"migrate_pair": {"contract": w.accts[pr.acct], "code_id": 2}}}),
            18 => json!({"to": w.assets[h].name, "msg": {"burn_from": {"owner": victim, "amount": n}}}),
            _ => json!({"to": factory, "msg": {"add_native_token_decimals": {"denom": "uaura", "decimals": 1}}}),
        }
    }
    /// A route with a minimum over a hostile token to an honest asset, and what the token does while the
    /// route runs: routes of its own to the same asset, with honest money of its own, with minimums of their
    /// own and for somebody else.
    fn nested(&self, cx: &mut Cx) -> Option<(Op, usize, Value)> {
        let w = &self.w;
        let r = &mut cx.r;
        let e = r.pick(&self.evil);
        let side = |p: &crate::world::PairRec| (0..2).find(|i| p.a[*i] == e).map(|i| p.a[1 - i]);
        let beside: Vec<usize> = w.pairs.iter().filter_map(side).filter(|a| !w.assets[*a].evil).collect();
        if beside.is_empty() {
            return None;
        }
        let (from, t) = (r.pick(&beside), r.pick(&beside));
        let steps = if from == t || r.chance(1, 4) { vec![(e, t)] } else { vec![(from, e), (e, t)] };
        let first = steps[0].0;
        let who = r.idx(w.users);
        let have = w.snap.bal[first][who].max(2);
        let amt = (r.log(36) + 1).min(have / 2).max(1);
        let entry = if w.is_native(first) { Entry::Direct { funds: vec![(first, amt)] } } else { Entry::Send { asset: first, amt, owner: None } };
        let to = if r.chance(1, 2) { To::Default } else { To::Acct(r.idx(w.users)) };
        let min = Some(match r.below(4) {
            0 => r.log(30),
            _ => r.log(60) + 1,
        });
        // its own routes
        let mine = w.assets[e].name.clone();
        let into: Vec<(usize, usize)> = w.pairs.iter().flat_map(|p| [(p.a[0], p.a[1]), (p.a[1], p.a[0])]).filter(|s| !w.is_native(s.0)).collect();
        let good: Vec<(usize, usize)> = into.iter().copied().filter(|s| s.1 == t && !w.assets[s.0].evil).collect();
        let calls: Vec<Value> = (0..r.range(1, 2))
            .map(|_| {
                let s = if good.is_empty() || r.chance(1, 5) { r.pick(&into) } else { r.pick(&good) };
                let to = match r.below(3) {
                    0 => mine.clone(),
                    1 => "stranger".into(),
                    _ => w.accts[r.idx(w.users)].clone(),
                };
                let m = json!({"execute_swap_operations": {"operations": steps_json(w, &[s]), "minimum_receive": if r.chance(4, 5) { json!(r.below(3).to_string()) } else { Value::Null }, "to": to}});
                json!({"to": w.assets[s.0].name, "msg": {"send": {"contract": w.accts[w.router], "amount": (r.log(24) + 100).to_string(), "msg": bin(&m)}}})
            })
            .collect();
        Some((Op::Route { who, steps, entry, min, to }, e, json!({"calls": calls, "rounds": r.range(1, 2)})))
    }
    /// what a token with the face of pool `p` or of its shares would say, with an amount worth saying
    fn masked(&self, cx: &mut Cx, me: usize, p: usize) -> Value {
        let w = &self.w;
        let r = &mut cx.r;
        let pr = &w.pairs[p];
        let me = w.assets[me].name.clone();
        let supply = w.shares(&w.snap, p).max(2);
        let n = match r.below(3) {
            0 => supply / 2,
            1 => supply / r.range(3, 1000) as u128,
            _ => r.below(supply.min(u64::MAX as u128) as u64) as u128,
        }
        .to_string();
        let who = if r.chance(1, 2) { me.clone() } else { w.accts[r.idx(w.users)].clone() };
        let pool = w.accts[pr.acct].clone();
        let to = if r.chance(3, 4) { pool.clone() } else { w.accts[w.router].clone() };
        let s = r.idx(2);
        match r.below(6) {
            0..=2 => json!({"to": pool, "msg": {"receive": {"sender": who, "amount": n, "msg": bin(&json!({"withdraw_liquidity": {}}))}}}),
            3 => json!({"to": pool, "msg": {"receive": {"sender": who, "amount": n, "msg": bin(&json!({"swap": {"to": me}}))}}}),
            4 => json!({"to": to, "msg": {"receive": {"sender": who, "amount": n,
                "msg": bin(&json!({"execute_swap_operations": {"operations": steps_json(w, &[(pr.a[s], pr.a[1 - s])])}}))}}}),
            _ => json!({"to": pool, "msg": {"swap": {"offer_asset": w.asset(pr.a[s], r.log(30)), "to": me}}}),
        }
    }
    /// a new script, or a script run at once: nobody's honest money moves
    fn script(&mut self, cx: &mut Cx) -> V {
        let e = cx.r.pick(&self.evil);
        let mut s = json!({});
        if cx.r.chance(1, 3) {
            s["tax"] = json!(cx.r.pick(&[1u64, 10, 50, 99, 100]));
        }
        if cx.r.chance(1, 5) {
            s["skip"] = json!(true);
        }
        if cx.r.chance(1, 6) {
            s["lie"] = json!(cx.r.log(128).to_string());
        }
        if cx.r.chance(1, 16) {
            s["deaf"] = json!(true);
        }
        if cx.r.chance(1, 20) {
            s["fail"] = json!(true);
        }
        if cx.r.chance(1, 4) {
            s["claim"] = json!(cx.r.log(100).to_string());
        }
        let mut worn = None;
        if cx.r.chance(1, 3) {
            // the face of a share token, or of a pool
            let p = cx.r.idx(self.w.pairs.len());
            worn = Some(p);
            let pool = self.w.pair_addr(p);
            let lp = self.w.assets[self.w.pairs[p].lp].name.clone();
            let mut m = json!({});
            for (c, q) in [(&lp, "token_info"), (&lp, "minter"), (&pool, "pair"), (&pool, "pool"), (&lp, "marketing_info")] {
                if cx.r.chance(3, 4) {
                    if let Ok(v) = self.w.ask(c, &json!({ q: {} })) {
                        m[q] = v;
                    }
                }
            }
            s["mask"] = m;
            cx.count("masks worn");
        }
        if let Some(p) = worn.filter(|_| cx.r.chance(2, 3)) {
            let c = self.masked(cx, e, p);
            s["calls"] = json!([c]);
            s["rounds"] = json!(1);
        } else if cx.r.chance(1, 2) {
            let n = cx.r.range(1, 2);
            let c: Vec<Value> = (0..n).map(|_| self.call(cx, e)).collect();
            s["calls"] = json!(c);
            s["rounds"] = json!(cx.r.range(1, 3));
        }
        let t = self.w.assets[e].name.clone();
        let run = if worn.is_some() { cx.r.chance(1, 2) } else { cx.r.chance(1, 4) };
        let pre = self.w.snap.clone();
        let by = cx.r.idx(self.w.users);
        let m = if run { json!({ "run": s }) } else { json!({ "script": s }) };
        cx.log.push(format!("hostile token: {m}"));
        let o = self.w.exec(by, &t, &m, &[]);
        self.w.observe();
        if run && o.ok() {
            cx.count("calls of a hostile token on its own");
        }
        cx.log.push(match &o.res {
            Ok(_) => "  accepted".into(),
            Err(e) => format!("  refused: {e}"),
        });
        self.judge(cx, &pre, &o, &BTreeMap::new(), None)
    }
    /// the shape of an operation, in terms of what its parties agreed to give
    fn gives(&self, op: &Op) -> BTreeMap<(usize, usize), u128> {
        let w = &self.w;
        let mut g = BTreeMap::new();
        let mut add = |a: usize, u: usize, n: u128| {
            let e: &mut u128 = g.entry((a, u)).or_default();
            *e = e.saturating_add(n);
        };
        match op {
            Op::Swap { pair, side, who, amt, owner, .. } => add(w.pairs[*pair].a[*side], owner.unwrap_or(*who), *amt),
            Op::Provide { who, listed, funds, .. } => {
                for (a, n) in listed {
                    if !w.is_native(*a) {
                        add(*a, *who, *n);
                    }
                }
                for (a, n) in funds {
                    add(*a, *who, *n);
                }
            }
            Op::Withdraw { pair, who, amt, owner } => add(w.pairs[*pair].lp, owner.unwrap_or(*who), *amt),
            Op::Route { who, entry, .. } => match entry {
                Entry::Send { asset, amt, owner } => add(*asset, owner.unwrap_or(*who), *amt),
                Entry::Direct { funds } => {
                    for (a, n) in funds {
                        add(*a, *who, *n);
                    }
                }
            },
            Op::Misdirect { asset, who, amt, .. } => add(*asset, *who, *amt),
            Op::NativeSwap { pair, side, who, amt } => add(w.pairs[*pair].a[*side], *who, *amt),
            Op::Transfer { asset, from, amt, .. } => add(*asset, *from, *amt),
            _ => {}
        }
        g
    }
    fn judge(&mut self, cx: &mut Cx, pre: &Snap, o: &ExecOut, gives: &BTreeMap<(usize, usize), u128>, op: Option<&Op>) -> V {
        let w = &self.w;
        cx.eval();
        if !o.ok() {
            if o.writes > 0 {
                return Err("refused, but something was written".into());
            }
            return Ok(());
        }
        for a in 0..w.assets.len() {
            if w.assets[a].evil {
                continue;
            }
            for u in 0..w.users {
                let lost = pre.bal[a][u].saturating_sub(w.snap.bal[a][u]);
                let cap = gives.get(&(a, u)).copied().unwrap_or(0);
                if lost > cap {
                    return Err(format!(
                        "{} lost {lost} of {}, of which {cap} were given",
                        who(w, u),
                        w.assets[a].name
                    ));
                }
            }
        }
        // the worth of a share of a pool without hostile tokens
        for p in 0..w.pairs.len() {
            if !self.honest_pool(p) {
                continue;
            }
            let (x, y) = (w.pools(pre, p), w.pools(&w.snap, p));
            let (s, t) = (w.shares(pre, p), w.shares(&w.snap, p));
            if s == 0 || t == 0 {
                continue;
            }
            let lhs = big(y[0]).mul(&big(y[1])).mul(&big(s)).mul(&big(s));
            let rhs = big(x[0]).mul(&big(x[1])).mul(&big(t)).mul(&big(t));
            if lhs < rhs {
                return Err(format!("a share of honest pool {p} lost worth: reserves {x:?} of {s} shares became {y:?} of {t}"));
            }
            if x != y {
                cx.count("honest pools moved");
            }
        }
        // a minimum of an honest asset is honoured
        if let Some(Op::Route { who, steps, entry, min: Some(m), to }) = op {
            let t = steps.last().map(|s| s.1);
            let rec = match to {
                To::Default => Some(*who),
                To::Acct(i) => Some(*i),
                To::Bad(_) => None,
            };
            if let (Some(t), Some(rec)) = (t, rec) {
                if rec < w.users && !w.assets[t].evil {
                    let spent = match entry {
                        Entry::Send { asset, amt, owner } if *asset == t && owner.unwrap_or(*who) == rec => *amt,
                        Entry::Direct { funds } if *who == rec => funds.iter().filter(|f| f.0 == t).map(|f| f.1).sum(),
                        _ => 0,
                    };
                    let floor = pre.bal[t][rec].saturating_sub(spent).saturating_add(*m);
                    if w.snap.bal[t][rec] < floor {
                        return Err(format!("a route with a minimum of {m} left its receiver with {} instead of {floor}", w.snap.bal[t][rec]));
                    }
                    cx.count("minimums honoured");
                }
            }
        }
        Ok(())
    }
    fn records(&self) -> V {
        let w = &self.w;
        let f = w.accts[w.factory].clone();
        if w.ask(&f, &json!({"config": {}}))? != self.config {
            return Err("the factory's settings changed".into());
        }
        if w.ask(&f, &json!({"pairs": {"limit": 30}}))? != self.list {
            return Err("the factory's list changed".into());
        }
        for p in 0..w.pairs.len() {
            if w.ask(&w.pair_addr(p), &json!({"pair": {}}))? != self.records[p] {
                return Err(format!("the record of pool {p} changed"));
            }
        }
        Ok(())
    }
}

fn minimum(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!("0"),
        1 => json!(r.log(20).to_string()),
        _ => Value::Null,
    }
}

/// P17
pub fn isolation(cx: &mut Cx) -> V {
    let mut h = match Host::new(cx) {
        Ok(h) => h,
        Err(e) => {
            cx.note(format!("deployment refused: {e}"));
            cx.count("deployments refused");
            return Ok(());
        }
    };
    let p = Profile { forge: 6, router_misc: 2, route: 22, ledger: 0, tol: 10, mess: 2, guard: 10, admin: 0, ..Profile::default() };
    for _ in 0..40 {
        if cx.r.chance(1, 3) {
            h.script(cx)?;
        }
        let mut op = gen::op(&mut cx.r, &h.w, &p);
        if cx.r.chance(1, 12) {
            if let Some((o, e, script)) = h.nested(cx) {
                op = o;
                let (t, m) = (h.w.assets[e].name.clone(), json!({ "script": script }));
                cx.log.push(format!("hostile token: {m}"));
                h.w.exec(0, &t, &m, &[]);
                h.w.observe();
                cx.count("routes within routes");
            }
        }
        if matches!(op, Op::Forge { .. }) && cx.r.chance(1, 2) {
            continue;
        }
        let pre = h.w.snap.clone();
        let gives = h.gives(&op);
        cx.log.push(format!("{op:?}"));
        let o = sim::run(&mut h.w, &op);
        h.w.observe();
        cx.log.push(match &o.res {
            Ok(_) => "  accepted".into(),
            Err(e) => format!("  refused: {e}"),
        });
        let touched = h.evil.iter().any(|e| o.touched.contains(&h.w.assets[*e].name));
        if o.ok() {
            cx.count(if touched { "operations with a hostile token accepted" } else { "other operations accepted" });
            if touched {
                cx.distinct(&format!("{op:?}{:?}", o.trace));
                cx.sample(|| format!("{op:?}: {}", o.trace.join(" | ")));
            }
        } else {
            cx.count("operations refused");
        }
        h.judge(cx, &pre, &o, &gives, Some(&op)).map_err(|e| format!("{op:?}: {e}"))?;
        if cx.r.chance(1, 8) {
            h.records()?;
        }
    }
    h.records()
}
