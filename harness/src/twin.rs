//! Several deployments on one chain: what happens in one leaves the others alone.
use crate::check::{Cx, V};
use crate::engine::{agree, kind, step};
use crate::gen::{self, Profile};
use crate::sim::{Hook, Op, Sim, To};
use crate::world::{bin, PairRec, World, CODE_PAIR, CODE_TOKEN};
use cosmwasm_std::{CosmosMsg, WasmMsg};
use serde_json::{json, Value};

/// one deployment, as the generator and the specification see the chain through it
struct View {
    factory: usize,
    router: usize,
    owner: usize,
    pairs: Vec<PairRec>,
    decimals: Vec<u8>,
    alone: bool, // a pool that no factory made
}
impl View {
    fn swap(&mut self, w: &mut World) {
        std::mem::swap(&mut self.factory, &mut w.factory);
        std::mem::swap(&mut self.router, &mut w.router);
        std::mem::swap(&mut self.owner, &mut w.owner);
        std::mem::swap(&mut self.pairs, &mut w.pairs);
        for (i, d) in self.decimals.iter_mut().enumerate() {
            if w.is_native(i) {
                std::mem::swap(d, &mut w.assets[i].decimals);
            }
        }
    }
    fn of(w: &World) -> View {
        View {
            factory: w.factory,
            router: w.router,
            owner: w.owner,
            pairs: vec![],
            decimals: w.assets.iter().map(|a| a.decimals).collect(),
            alone: false,
        }
    }
    /// the contracts that belong to it (its share tokens are judged by their balances)
    fn own(&self, w: &World) -> Vec<String> {
        let mut v: Vec<String> = self.pairs.iter().map(|p| w.accts[p.acct].clone()).collect();
        if !self.alone {
            v.push(w.accts[self.factory].clone());
            v.push(w.accts[self.router].clone());
        }
        v
    }
}

fn setup(cx: &mut Cx, p: &Profile) -> Result<(World, Vec<View>), String> {
    let mut w = gen::world(&mut cx.r, p)?;
    let natives: Vec<usize> = (0..w.assets.len()).filter(|a| w.is_native(*a)).collect();
    let first: Vec<[usize; 2]> = w.pairs.iter().map(|p| p.a).collect();
    let mut views = vec![];
    // another deployment, by somebody else, of the same codes
    let mut other = View::of(&w);
    other.owner = cx.r.idx(7);
    other.swap(&mut w); // now w is the (empty) second one and `other` holds the first
    let made = (|| -> Result<(), String> {
        w.deploy()?;
        for a in &natives {
            let d = cx.r.pick(&[0u8, 6, 6, 9, 18]);
            w.register_native(*a, d)?;
        }
        let mut tries = 0;
        let n = cx.r.range(1, 3) as usize;
        while w.pairs.len() < n && tries < 20 {
            tries += 1;
            let a = if cx.r.chance(2, 3) && !first.is_empty() {
                // the same two assets as a pool of the other deployment, in some order
                let a = cx.r.pick(&first);
                if cx.r.chance(1, 2) {
                    a
                } else {
                    [a[1], a[0]]
                }
            } else {
                [cx.r.idx(w.assets.len()), cx.r.idx(w.assets.len())]
            };
            if a[0] == a[1] || Sim::new(&w).find_pair(a[0], a[1]).is_some() {
                continue;
            }
            let wl = gen::whitelist(&mut cx.r, &w);
            let mins = gen::minimums(&mut cx.r);
            let who = cx.r.idx(w.users);
            w.create_pair(who, a, wl, mins)?;
        }
        Ok(())
    })();
    let mut second = View::of(&w);
    std::mem::swap(&mut second.pairs, &mut w.pairs);
    // back to the first
    let k = w.assets.len();
    other.decimals = {
        let mut d = other.decimals.clone();
        for i in d.len()..k {
            d.push(w.assets[i].decimals);
        }
        d
    };
    other.swap(&mut w);
    made?;
    // a pool made by hand, of the same code
    let mut by_hand = View::of(&w);
    by_hand.alone = true;
    if cx.r.chance(2, 3) {
        let a = if !first.is_empty() && cx.r.chance(2, 3) { cx.r.pick(&first) } else { [0, w.assets.len() - 1] };
        let wl = gen::whitelist(&mut cx.r, &w);
        let mins = gen::minimums(&mut cx.r);
        let who = cx.r.idx(w.users);
        let dec = [w.assets[a[0]].decimals, w.assets[a[1]].decimals];
        let o = w.exec_raw(
            who,
            CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin: None,
                code_id: CODE_PAIR,
                msg: bin(&json!({"asset_infos": [w.info(a[0]), w.info(a[1])], "token_code_id": CODE_TOKEN, "asset_decimals": dec,
                    "requirements": {"whitelist": wl.iter().map(|u| w.wl_name(*u)).collect::<Vec<_>>(),
                    "first_asset_minimum": mins[0].to_string(), "second_asset_minimum": mins[1].to_string()}})),
                funds: vec![],
                label: "x".into(),
            }),
        );
        o.res.map_err(|e| format!("by hand: {e}"))?;
        let kept = std::mem::take(&mut w.pairs);
        w.adopt_pair(a, wl, mins);
        by_hand.pairs = std::mem::replace(&mut w.pairs, kept);
    }
    views.push(second);
    if !by_hand.pairs.is_empty() {
        views.push(by_hand);
    }
    w.observe();
    Ok((w, views))
}

/// what a deployment answers about itself
fn answers(w: &World, factory: usize, router: usize, owner: usize, pairs: &[PairRec]) -> V {
    let f = &w.accts[factory];
    let c = w.ask(&w.accts[router], &json!({"config": {}}))?;
    if c["halo_factory"].as_str() != Some(f) {
        return Err(format!("the router of {f} answers {c}"));
    }
    let c = w.ask(f, &json!({"config": {}}))?;
    if c["owner"].as_str() != Some(&w.accts[owner]) {
        return Err(format!("the factory {f} of {} answers {c}", w.accts[owner]));
    }
    let n = w.assets.len();
    for x in 0..n {
        for y in 0..n {
            if x == y {
                continue;
            }
            let got = w.ask(f, &json!({"pair": {"asset_infos": [w.info(x), w.info(y)]}}));
            let want = pairs.iter().find(|p| p.a == [x, y] || p.a == [y, x]);
            match (got, want) {
                (Ok(v), Some(p)) => {
                    if v["contract_addr"].as_str() != Some(&w.accts[p.acct]) {
                        return Err(format!("the factory {f} names {v} instead of {}", w.accts[p.acct]));
                    }
                }
                (Ok(v), None) => return Err(format!("the factory {f} names {v}, which it did not make")),
                (Err(e), Some(p)) => return Err(format!("the factory {f} does not know its pool {}: {e}", w.accts[p.acct])),
                (Err(_), None) => {}
            }
        }
    }
    let mut seen = vec![];
    let mut after = Value::Null;
    loop {
        let v = w.ask(f, &json!({"pairs": {"start_after": after, "limit": 30}}))?;
        let l = v["pairs"].as_array().cloned().unwrap_or_default();
        if l.is_empty() {
            break;
        }
        after = l[l.len() - 1]["asset_infos"].clone();
        seen.extend(l.iter().map(|p| p["contract_addr"].as_str().unwrap_or("").to_string()));
        if seen.len() > 200 {
            break;
        }
    }
    seen.sort();
    let mut want: Vec<String> = pairs.iter().map(|p| w.accts[p.acct].clone()).collect();
    want.sort();
    if seen != want {
        return Err(format!("the factory {f} lists {seen:?} instead of {want:?}"));
    }
    Ok(())
}

/// P34
pub fn apart(cx: &mut Cx) -> V {
    let p = Profile { max_pairs: 3, max_tokens: 3, route: 16, router_misc: 2, forge: 6, admin: 2, guard: 15, mess: 5, ..Profile::default() };
    let hand = Profile { route: 0, router_misc: 0, forge: 0, admin: 0, ..p.clone() };
    let (mut w, mut views) = match setup(cx, &p) {
        Ok(x) => x,
        Err(e) => {
            cx.note(format!("deployment refused: {e}"));
            cx.count("deployments refused");
            return Ok(());
        }
    };
    if w.pairs.is_empty() {
        return Ok(());
    }
    let calm = Profile { mess: 0, tol: 0, ..p.clone() };
    let steps = 40 + cx.r.below(40);
    for _ in 0..steps {
        let k = cx.r.idx(views.len() + 1);
        let mut others: Vec<String> = vec![];
        for (i, v) in views.iter().enumerate() {
            if i + 1 != k {
                others.extend(v.own(&w));
            }
        }
        let strangers: Vec<usize> = views.iter().enumerate().filter(|(i, _)| i + 1 != k).flat_map(|(_, v)| v.pairs.iter().map(|p| p.lp)).collect();
        let mut strangers = strangers;
        let alone = k > 0 && views[k - 1].alone;
        if k > 0 {
            others.push(w.accts[w.factory].clone());
            others.push(w.accts[w.router].clone());
            others.extend(w.pairs.iter().map(|p| w.accts[p.acct].clone()));
            strangers.extend(w.pairs.iter().map(|p| p.lp));
            views[k - 1].swap(&mut w);
        }
        if w.pairs.is_empty() {
            views[k - 1].swap(&mut w);
            continue;
        }
        let p0 = cx.r.idx(w.pairs.len());
        let op = if w.shares(&w.snap, p0) == 0 && cx.r.chance(1, 2) {
            let op = gen::provide(&mut cx.r, &w, &calm, p0);
            let mut first = None;
            if let Op::Provide { who, .. } = op {
                for a in w.pairs[p0].a {
                    if !w.is_native(a) && w.allowance(a, who, w.pairs[p0].acct).0 == 0 {
                        first = Some(Op::Allow { asset: a, owner: who, spender: w.pairs[p0].acct, amt: u128::MAX / 2, up: true, expires: None });
                    }
                }
            }
            first.unwrap_or(op)
        } else if !strangers.is_empty() && cx.r.chance(1, 12) {
            // a share of somebody else's pool is worth nothing here
            let asset = cx.r.pick(&strangers);
            let who = (0..w.users).max_by_key(|u| w.snap.bal[asset][*u]).unwrap();
            let amt = gen::amount(&mut cx.r, w.snap.bal[asset][who]).max(1);
            cx.count("shares of another deployment offered");
            Op::Misdirect { asset, who, target: w.pairs[p0].acct, amt, hook: cx.r.pick(&[Hook::Withdraw, Hook::Withdraw, Hook::Swap]) }
        } else {
            gen::op(&mut cx.r, &w, if alone { &hand } else { &p })
        };
        // messages to another deployment's contracts are its own operations
        let outside = match &op {
            Op::Misdirect { target, .. } | Op::Forge { target, .. } => others.contains(&w.accts[*target]),
            Op::Swap { to: To::Bad(_), .. } => false,
            _ => false,
        };
        let r = if outside {
            Ok(())
        } else {
            cx.log.push(format!("deployment {k}: {op:?}"));
            let st = step(&mut w, &op);
            cx.log.push(match &st.out.res {
                Ok(_) => "  accepted".into(),
                Err(e) => format!("  refused: {e}"),
            });
            w.observe();
            cx.eval();
            cx.count(kind(&op));
            if st.out.ok() {
                cx.count(if alone {
                    "accepted by a pool made by hand"
                } else if k == 0 {
                    "accepted by the first deployment"
                } else {
                    "accepted by the second deployment"
                });
                cx.distinct(&format!("{op:?}{:?}", st.pre));
                cx.sample(|| format!("deployment {k}: {op:?}"));
            }
            let hit: Vec<&String> = others.iter().filter(|o| st.out.touched.contains(*o)).collect();
            if !hit.is_empty() {
                Err(format!("it wrote to {hit:?}, which belongs to another deployment"))
            } else {
                agree(&w, &st)
            }
        };
        if k > 0 {
            // assets made meanwhile
            let v = &mut views[k - 1];
            for i in v.decimals.len()..w.assets.len() {
                v.decimals.push(w.assets[i].decimals);
            }
            v.swap(&mut w);
        }
        r.map_err(|e| format!("deployment {k}: {op:?}: {e}"))?;
    }
    // each knows its own pools, and only those
    cx.eval();
    answers(&w, w.factory, w.router, w.owner, &w.pairs)?;
    for v in views.iter().filter(|v| !v.alone) {
        cx.eval();
        answers(&w, v.factory, v.router, v.owner, &v.pairs)?;
    }
    stranger_orders(cx, &mut w, &views)
}

/// one deployment's factory has no say over another's pools
fn stranger_orders(cx: &mut Cx, w: &mut World, views: &[View]) -> V {
    let second = &views[0];
    let mut tries: Vec<(usize, usize, String)> = vec![]; // (owner, factory, pool)
    for p in &w.pairs {
        tries.push((second.owner, second.factory, w.accts[p.acct].clone()));
    }
    for v in views {
        for p in &v.pairs {
            tries.push((w.owner, w.factory, w.accts[p.acct].clone()));
        }
    }
    for (who, f, pool) in tries {
        let fork = w.fork();
        let f = w.accts[f].clone();
        let msg = json!({"migrate_pair": {"contract": pool, "code_id": CODE_PAIR}});
        let o = w.exec(who, &f, &msg, &[]);
        cx.eval();
        cx.count("orders to another deployment's pool");
        if o.ok() {
            return Err(format!("the factory {f} migrated {pool}, which it did not make"));
        }
        if !w.same_state(&fork) {
            return Err("a refused order left something behind".into());
        }
    }
    Ok(())
}
