//! Contracts of a release, and what was stored with its code, under the present code.
use crate::check::{Cx, V};
use crate::engine::{self, sheet_diff, Mon, Step};
use crate::gen::{self, Profile};
use crate::more::views;
use crate::sim::{self, Admin, Op, Rej};
use crate::world::{bin, World, NOW_FACTORY, NOW_PAIR, NOW_ROUTER, NOW_TOKEN};
use cosmwasm_std::{CosmosMsg, WasmMsg};
use serde_json::{json, Value};

pub fn history(cx: &mut Cx) -> V {
    engine::history(cx, Upgrade::default())
}

#[derive(Default)]
struct Upgrade {
    factory: bool,
    router: bool,
    pools: Vec<bool>,
    codes: bool,
}
fn direct(c: &str, code: u64) -> CosmosMsg {
    CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: c.into(), new_code_id: code, msg: bin(&json!({})) })
}
/// the registry page by page
fn pages(w: &World, limit: u64) -> Vec<Value> {
    let f = w.accts[w.factory].clone();
    let (mut all, mut after) = (vec![], Value::Null);
    for _ in 0..200 {
        let l = w.ask(&f, &json!({"pairs": {"limit": limit, "start_after": after}})).map(|v| v["pairs"].as_array().cloned().unwrap_or_default()).unwrap_or_default();
        match l.last() {
            None => break,
            Some(x) => after = x["asset_infos"].clone(),
        }
        all.extend(l);
    }
    all
}
/// the settings are about to change on purpose
fn without_codes(mut v: Vec<Result<Value, String>>) -> Vec<Result<Value, String>> {
    if let Some(Ok(c)) = v.get_mut(0) {
        c["pair_code_id"] = Value::Null;
        c["token_code_id"] = Value::Null;
    }
    v
}
fn told(w: &World) -> Vec<Result<Value, String>> {
    let mut v = without_codes(views(w));
    v.push(Ok(json!(pages(w, 30))));
    v.push(Ok(json!(pages(w, 2))));
    for (a, x) in w.assets.iter().enumerate() {
        if !w.is_native(a) {
            v.push(w.ask(&x.name, &json!({"minter": {}})));
            v.push(w.ask(&x.name, &json!({"token_info": {}})));
        }
    }
    v
}
fn differ(a: &[Result<Value, String>], b: &[Result<Value, String>]) -> Option<String> {
    a.iter().zip(b).find(|(x, y)| x != y && (x.is_ok() || y.is_ok())).map(|(x, y)| format!("{x:?} and then {y:?}"))
}

impl Upgrade {
    /// one more contract gets the present code
    fn upgrade(&mut self, cx: &mut Cx, w: &mut World) -> V {
        self.pools.resize(w.pairs.len(), false);
        let (f, r, owner) = (w.accts[w.factory].clone(), w.accts[w.router].clone(), w.owner);
        let old: Vec<usize> = (0..w.pairs.len()).filter(|i| !self.pools[*i]).collect();
        let (told0, snap) = (told(w), w.snap.clone());
        let what = cx.r.below(6);
        let (name, out) = match what {
            0 if !self.factory => {
                self.factory = true;
                ("the factory", w.exec_raw(owner, direct(&f, NOW_FACTORY)))
            }
            1 if !self.router => {
                self.router = true;
                ("the router", w.exec_raw(owner, direct(&r, NOW_ROUTER)))
            }
            2 if !self.codes => {
                self.codes = true;
                ("the codes of new pools", w.exec(owner, &f, &json!({"update_config": {"pair_code_id": NOW_PAIR, "token_code_id": NOW_TOKEN}}), &[]))
            }
            _ if !old.is_empty() => {
                let i = cx.r.pick(&old);
                self.pools[i] = true;
                let p = w.pair_addr(i);
                let code = if self.codes && cx.r.chance(1, 2) { None } else { Some(NOW_PAIR) };
                ("a pool", w.exec(owner, &f, &json!({"migrate_pair": {"contract": p, "code_id": code}}), &[]))
            }
            _ => return Ok(()),
        };
        cx.eval();
        cx.note(format!("upgraded {name}"));
        cx.count(&format!("upgrades of {name}"));
        out.res.map_err(|e| format!("the upgrade of {name} was refused: {e}"))?;
        w.observe();
        if w.snap != snap {
            return Err(format!("the upgrade of {name} moved balances: {}", sheet_diff(w, &w.snap, &snap).join("; ")));
        }
        match differ(&told0, &told(w)) {
            Some(d) => Err(format!("around the upgrade of {name}: {d}")),
            None => Ok(()),
        }
    }
}
impl Mon for Upgrade {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.steps = 36;
    }
    fn gen(&mut self, cx: &mut Cx, w: &World, p: &Profile) -> Op {
        match gen::op(&mut cx.r, w, p) {
            // the codes of new pools are settled by upgrades
            Op::Admin(Admin::Codes { .. }) => Op::Blocks(1),
            o => o,
        }
    }
    fn before(&mut self, cx: &mut Cx, w: &mut World, op: &Op) -> V {
        if matches!(op, Op::Blocks(_)) || !cx.r.chance(1, 4) {
            return Ok(());
        }
        // the same operation with and without an upgrade just before it
        let f = w.fork();
        let open = matches!(sim::Sim::new(w).apply(op), Err(Rej::Maybe(_)));
        let plain = sim::run(w, op);
        w.observe();
        let (snap, v) = (w.snap.clone(), told(w));
        w.restore(&f);
        for _ in 0..cx.r.range(1, 4) {
            self.upgrade(cx, w)?;
        }
        let up = w.fork();
        let out = sim::run(w, op);
        w.observe();
        if !open {
            cx.eval();
            if out.ok() != plain.ok() {
                return Err(format!("{op:?}: {:?} before an upgrade, {:?} after it", plain.res, out.res));
            }
            if w.snap != snap {
                return Err(format!("{op:?} has another effect after an upgrade: {}", sheet_diff(w, &w.snap, &snap).join("; ")));
            }
            if let Some(d) = differ(&v, &told(w)) {
                return Err(format!("{op:?} ends in another state after an upgrade: {d}"));
            }
            cx.count("operations compared");
            if out.ok() {
                cx.distinct(&format!("{op:?}{:?}", snap.bal));
                cx.sample(|| format!("{op:?}: the same with and without an upgrade just before"));
            }
        }
        w.restore(&up);
        Ok(())
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        if let (Op::Admin(Admin::NewPool { .. }), true) = (&st.op, st.out.ok()) {
            self.pools.resize(w.pairs.len(), false);
            if self.codes {
                *self.pools.last_mut().unwrap() = true;
                cx.count("pools of the present code");
            }
        }
        // what only parts of have the present code works together as specified
        cx.eval();
        engine::agree(w, st)
    }
    fn finish(&mut self, cx: &mut Cx, w: &mut World) -> V {
        // everything, and then everybody goes
        for _ in 0..40 {
            self.upgrade(cx, w)?;
        }
        for p in 0..w.pairs.len() {
            let lp = w.pairs[p].lp;
            for u in 0..w.users {
                let amt = w.snap.bal[lp][u];
                if amt > 0 {
                    let op = Op::Withdraw { pair: p, who: u, amt, owner: None };
                    let st = engine::step(w, &op);
                    cx.eval();
                    cx.count("shares redeemed at the end");
                    engine::agree(w, &st).map_err(|e| format!("{op:?}: {e}"))?;
                }
            }
        }
        Ok(())
    }
}
