//! Operations and answers are functions of the state: repeated, and repeated in another block.
use crate::check::{Cx, V};
use crate::engine::{Mon, Step};
use crate::gen::{self, Profile};
use crate::more::views;
use crate::sim::{self, Op, Rej, Sim};
use crate::world::{bin, ExecOut, World, CODE_FACTORY, CODE_PAIR, CODE_PAIR2, CODE_ROUTER, CODE_TOKEN, CODE_TOKEN2};
use cosmwasm_std::{CosmosMsg, WasmMsg};
use serde_json::{json, Value};

/// what `what` does: again, and (if `anytime`) in another block
fn repeated(cx: &mut Cx, w: &mut World, what: &str, anytime: &dyn Fn(&World) -> Option<Value>, run: &mut dyn FnMut(&mut World) -> ExecOut) -> V {
    let f = w.fork();
    let one = run(w);
    let end = w.fork();
    let first = |l: &ExecOut, r: &ExecOut| -> String {
        for (x, y) in l.trace.iter().zip(&r.trace) {
            if x != y {
                return format!("first {x}, then {y}");
            }
        }
        if let (Ok(x), Ok(y)) = (&l.res, &r.res) {
            for (x, y) in x.iter().zip(y) {
                if x != y {
                    return format!("first {x:?}, then {y:?}");
                }
            }
        }
        format!("first {} calls and {:?}, then {} and {:?}", l.msgs, l.res.as_ref().map(|e| e.len()), r.msgs, r.res.as_ref().map(|e| e.len()))
    };
    for _ in 0..2 {
        w.restore(&f);
        let two = run(w);
        cx.eval();
        if one.ok() != two.ok() || one.trace != two.trace || one.touched != two.touched || (one.ok() && one.res != two.res) || one.queries != two.queries {
            return Err(format!("{what} does not do the same twice: {}", first(&one, &two)));
        }
        if !w.same_state(&end) {
            return Err(format!("{what} leaves different states behind: {:?}", w.state_diff(&end)));
        }
    }
    cx.count(if one.ok() { "accepted operations repeated" } else { "refused operations repeated" });
    if one.ok() {
        cx.distinct(&format!("{what}{:?}", f_key(w)));
        cx.sample(|| format!("{what}: {} calls, {} queries, the same every time", one.msgs, one.queries));
    }
    w.restore(&f);
    let here = anytime(w);
    if here.is_some() {
        w.elsewhen(&mut cx.r);
        if anytime(w) == here {
            let b = w.app.block_info();
            let three = run(w);
            cx.eval();
            cx.count("operations repeated in another block");
            // a refusal may have another reason here: what was too much may have expired as well
            if one.ok() != three.ok() || (one.ok() && (one.trace != three.trace || one.res != three.res)) {
                return Err(format!("{what} is something else in block {} at {} of {}: {}", b.height, b.time, b.chain_id, first(&one, &three)));
            }
            if !w.same_contents(&end) {
                return Err(format!("{what} in block {} leaves another state behind: {:?}", b.height, w.state_diff(&end)));
            }
        } else {
            cx.count("operations that depend on an expiry");
        }
        w.restore(&f);
    }
    Ok(())
}
fn f_key(w: &World) -> u64 {
    w.snap.bal.iter().flatten().fold(0u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64))
}

/// the specification's view of an operation in the current block
fn view(w: &World, op: &Op) -> Option<Value> {
    let mut s = Sim::new(w);
    let r = s.apply(op);
    match r {
        Err(Rej::Maybe(_)) => None,
        Err(Rej::No(_)) => Some(json!("refused")),
        Ok(()) => Some(json!(format!("{:?}{:?}{:?}", s.s, s.allow, s.receipts))),
    }
}

#[derive(Default)]
pub struct Repeat;
impl Repeat {
    fn answers(&self, cx: &mut Cx, w: &mut World, steps: &[(usize, usize)]) -> V {
        let ask = |w: &World| {
            let mut v = views(w);
            let r = w.accts[w.router].clone();
            let ops = sim::steps_json(w, steps);
            v.push(w.ask(&r, &json!({"simulate_swap_operations": {"offer_amount": "12345", "operations": ops}})));
            v.push(w.ask(&r, &json!({"reverse_simulate_swap_operations": {"ask_amount": "12", "operations": ops}})));
            v
        };
        let f = w.fork();
        let (a, b) = (ask(w), ask(w));
        w.elsewhen(&mut cx.r);
        let c = ask(w);
        w.restore(&f);
        cx.eval();
        cx.count("sets of answers repeated");
        for (x, y) in a.iter().zip(&b).chain(a.iter().zip(&c)) {
            if x != y && (x.is_ok() || y.is_ok()) {
                return Err(format!("the same question is answered {x:?} and {y:?}"));
            }
        }
        Ok(())
    }
}
impl Mon for Repeat {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        *p = Profile { swap: 20, provide: 18, withdraw: 14, route: 30, forge: 3, transfer: 3, ledger: 8, router_misc: 3, steps: 24, ..p.clone() };
    }
    fn start(&mut self, cx: &mut Cx, w: &mut World) -> V {
        let always = |_: &World| Some(Value::Null);
        let f = w.accts[w.factory].clone();
        let (owner, r) = (w.owner, w.accts[w.router].clone());
        for _ in 0..2 {
            let (x, y) = (cx.r.idx(w.assets.len()), cx.r.idx(w.assets.len()));
            let m = w.create_pair_msg([x, y], &[0, 1], [1, 2]);
            let by = cx.r.idx(w.users);
            cx.count("creations");
            repeated(cx, w, &format!("creating a pool {m}"), &always, &mut |w| w.exec(by, &f, &m, &[]))?;
        }
        let bals: Vec<Value> = (0..cx.r.below(9) as usize).map(|i| json!({"address": w.accts[i % w.users], "amount": "7"})).collect();
        let m = json!({"name": "another", "symbol": "ANO", "decimals": 6, "initial_balances": bals, "mint": {"minter": w.accts[0], "cap": "700"}});
        repeated(cx, w, &format!("creating a token {m}"), &always, &mut |w| {
            w.exec_raw(owner, CosmosMsg::Wasm(WasmMsg::Instantiate { admin: None, code_id: CODE_TOKEN, msg: bin(&m), funds: vec![], label: "t".into() }))
        })?;
        let i = cx.r.idx(w.pairs.len());
        let p = w.pair_addr(i);
        let by = if cx.r.chance(2, 3) { owner } else { cx.r.idx(w.users) };
        let m = json!({"migrate_pair": {"contract": p, "code_id": CODE_PAIR2}});
        repeated(cx, w, "migrating a pool", &always, &mut |w| w.exec(by, &f, &m, &[]))?;
        let m = json!({"update_config": {"owner": cx.r.pick(&[None, Some(w.accts[0].clone())]), "pair_code_id": cx.r.pick(&[None, Some(CODE_PAIR)]), "token_code_id": cx.r.pick(&[None, Some(CODE_TOKEN2)])}});
        repeated(cx, w, "changing the settings", &always, &mut |w| w.exec(by, &f, &m, &[]))?;
        if let Some(a) = (0..w.assets.len()).find(|a| w.is_native(*a)) {
            let m = json!({"add_native_token_decimals": {"denom": w.assets[a].name, "decimals": 9}});
            repeated(cx, w, "registering a coin", &always, &mut |w| w.exec(by, &f, &m, &[]))?;
        }
        for (c, code) in [(&f, CODE_FACTORY), (&r, CODE_ROUTER)] {
            let m = WasmMsg::Migrate { contract_addr: c.clone(), new_code_id: code, msg: bin(&json!({})) };
            repeated(cx, w, "migrating", &always, &mut |w| w.exec_raw(owner, CosmosMsg::Wasm(m.clone())))?;
        }
        Ok(())
    }
    fn before(&mut self, cx: &mut Cx, w: &mut World, op: &Op) -> V {
        if matches!(op, Op::Blocks(_)) {
            return Ok(());
        }
        if let Op::Route { steps, .. } = op {
            self.answers(cx, w, steps)?;
        }
        // an expiry is given relative to the block
        let timed = matches!(op, Op::Allow { expires: Some(_), .. });
        repeated(cx, w, &format!("{op:?}"), &|w| if timed { None } else { view(w, op) }, &mut |w| sim::run(w, op))
    }
    fn after(&mut self, _: &mut Cx, _: &mut World, _: &Step) -> V {
        Ok(())
    }
    fn gen(&mut self, cx: &mut Cx, w: &World, p: &Profile) -> Op {
        gen::op(&mut cx.r, w, p)
    }
}
