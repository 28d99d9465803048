//! Messages and questions as texts: what is not of the published form is refused, and the same message
//! written another way is the same message.
use crate::check::{Cx, V};
use crate::engine::{Mon, Step};
use crate::gen::Profile;
use crate::rng::Rng;
use crate::sim::{self, Op};
use crate::world::{bin, World, CODE_FACTORY, CODE_PAIR, CODE_ROUTER, CODE_TOKEN};
use cosmwasm_std::{Binary, Coin, CosmosMsg, Empty, QueryRequest, WasmMsg, WasmQuery};
use serde_json::{json, Map, Value};

/// fields that may be left out, by the name of what they are in
fn optional(of: &str, k: &str) -> bool {
    let f: &[&str] = match of {
        "swap" => &["belief_price", "max_spread", "to"],
        "provide_liquidity" => &["slippage_tolerance", "receiver"],
        "execute_swap_operations" => &["minimum_receive", "to"],
        "execute_swap_operation" => &["to"],
        "update_config" => &["owner", "token_code_id", "pair_code_id"],
        "migrate_pair" => &["code_id"],
        "increase_allowance" | "decrease_allowance" => &["expires"],
        "update_minter" => &["new_minter"],
        "pairs" | "all_accounts" | "all_allowances" => &["start_after", "limit"],
        "mint" => &["cap"],
        "new token" => &["mint"],
        _ => &[],
    };
    f.contains(&k)
}
const OPTIONAL: &[(&str, &str)] = &[
    ("swap", "belief_price"), ("swap", "max_spread"), ("swap", "to"),
    ("provide_liquidity", "slippage_tolerance"), ("provide_liquidity", "receiver"),
    ("execute_swap_operations", "minimum_receive"), ("execute_swap_operations", "to"), ("execute_swap_operation", "to"),
    ("update_config", "owner"), ("update_config", "token_code_id"), ("update_config", "pair_code_id"),
    ("migrate_pair", "code_id"), ("increase_allowance", "expires"), ("decrease_allowance", "expires"),
    ("pairs", "start_after"), ("pairs", "limit"),
];
const CHOICES: &[&str] = &["native_token", "token", "halo_swap", "at_height", "at_time", "never"];
const AMOUNTS: &[&str] = &["amount", "minimum_receive", "prev_balance", "first_asset_minimum", "second_asset_minimum", "cap", "offer_amount", "ask_amount"];
const FRACTIONS: &[&str] = &["belief_price", "max_spread", "slippage_tolerance"];

/// places where a text can be spoiled; the instruction within a notification is opened
fn sites(v: &Value, of: &str, top: bool, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, String, bool)>) {
    match v {
        Value::Object(o) => {
            let choice = top || o.len() == 1 && o.keys().all(|k| CHOICES.contains(&k.as_str()));
            out.push((path.clone(), of.into(), choice));
            for (k, x) in o {
                path.push(k.clone());
                sites(x, k, false, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                sites(x, of, false, path, out);
                path.pop();
            }
        }
        Value::String(s) if of == "msg" => {
            if let Some(inner) = open(s) {
                path.push("*".into());
                sites(&inner, "", true, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn open(s: &str) -> Option<Value> {
    Binary::from_base64(s).ok().and_then(|b| serde_json::from_slice(b.as_slice()).ok())
}
fn at(v: &mut Value, path: &[String], f: &mut dyn FnMut(&mut Value)) {
    match path.split_first() {
        None => f(v),
        Some((k, rest)) if k == "*" => {
            if let Some(mut inner) = v.as_str().and_then(open) {
                at(&mut inner, rest, f);
                *v = json!(bin(&inner));
            }
        }
        Some((k, rest)) => {
            let x = match v {
                Value::Array(a) => k.parse::<usize>().ok().and_then(|i| a.get_mut(i)),
                _ => v.get_mut(k.as_str()),
            };
            if let Some(x) = x {
                at(x, rest, f)
            }
        }
    }
}
fn camel(k: &str) -> String {
    let mut up = false;
    k.chars().filter_map(|c| if c == '_' { up = true; None } else { Some(if std::mem::take(&mut up) { c.to_ascii_uppercase() } else { c }) }).collect()
}
fn misspelled(r: &mut Rng, k: &str) -> String {
    let s = match r.below(6) {
        0 => format!("{k}s"),
        1 => k[..k.len() - 1].into(),
        2 => camel(k),
        3 => k.to_uppercase(),
        4 => format!("_{k}"),
        _ => k.replace('_', "-"),
    };
    if s == k || s.is_empty() { format!("{k}_") } else { s }
}
/// a value of another kind in the place of `v`, called `k`
fn unfit(r: &mut Rng, k: &str, v: &Value) -> Value {
    let any = [json!(true), json!([]), json!({"x": 1})];
    match v {
        Value::Array(a) => match r.below(4) {
            0 if !a.is_empty() && ["assets", "asset_infos", "asset_decimals", "start_after"].contains(&k) => {
                let mut b = a.clone();
                if r.chance(1, 2) { b.pop(); } else { b.push(a[0].clone()); }
                Value::Array(b)
            }
            1 => json!(5),
            2 => json!("x"),
            _ => json!({"x": 1}),
        },
        Value::Object(_) => r.pick(&[json!(5), json!(true), json!("x"), json!("")]),
        Value::Number(_) => {
            let n = r.pick(&[json!("5"), json!(-1), json!(1.5), json!(null), json!(true), json!([5]), json!({"x": 1})]);
            match k {
                "decimals" | "asset_decimals" if r.chance(1, 3) => json!(256),
                "limit" if r.chance(1, 3) => json!(1u64 << 32),
                _ if n.is_null() && k.ends_with("code_id") => json!("5"),
                _ if n.is_null() && k == "limit" => json!(-1),
                _ => n,
            }
        }
        _ if r.chance(1, 4) => r.pick(&any),
        _ if AMOUNTS.contains(&k) => r.pick(&[
            json!(""), json!("abc"), json!("-5"), json!("1.5"), json!("1e3"), json!("0x10"), json!(" 7"), json!("7 "), json!("1_000"), json!("1,000"), json!(7), json!(7.0),
            json!("340282366920938463463374607431768211456"), json!("99999999999999999999999999999999999999999999999"),
        ]),
        _ if FRACTIONS.contains(&k) => r.pick(&[
            json!(""), json!("abc"), json!("-0.5"), json!("0.5.5"), json!("0,5"), json!("5e-1"), json!("50%"), json!(" 0.5"), json!("0.1234567890123456789"), json!(0.5), json!(1), json!(0),
            json!("340282366920938463463.374607431768211456"),
        ]),
        _ if k == "msg" => r.pick(&[json!("!"), json!(""), json!("e30="), json!("e30"), json!("bnVsbA=="), json!(5)]),
        Value::String(_) => r.pick(&[json!(5), json!(null), json!(true)]),
        _ => r.pick(&any),
    }
}

/// the message made something that is none; with a description
fn spoiled(r: &mut Rng, m: &Value, of: &str) -> (Vec<u8>, String) {
    if r.chance(1, 16) {
        let mut t = serde_json::to_vec(m).unwrap();
        let what = match r.below(4) {
            0 => {
                t.pop();
                "its end missing"
            }
            1 => {
                t.extend(b" {}");
                "something after its end"
            }
            2 => {
                t.insert(1, b',');
                "a comma too many"
            }
            _ => {
                t.clear();
                "nothing in it"
            }
        };
        return (t, what.into());
    }
    let mut all = vec![];
    sites(m, of, of.is_empty(), &mut vec![], &mut all);
    let mut v = m.clone();
    let (path, name, choice) = r.pick(&all);
    let mut what = String::new();
    let place = if name.is_empty() { "the message".into() } else { name.clone() };
    at(&mut v, &path, &mut |x| {
        let o = x.as_object_mut().unwrap();
        let keys: Vec<String> = o.keys().cloned().collect();
        let mut rename = |r: &mut Rng, o: &mut Map<String, Value>| {
            let k = r.pick(&keys);
            let n = misspelled(r, &k);
            let val = o.remove(&k).unwrap();
            what = format!("{k} of {place} called {n}");
            o.insert(n, val);
        };
        if choice {
            match r.below(3) {
                0 => {
                    let k = r.pick(&["native_token", "swap", "update_config", "x", "never", "transfer"]);
                    if o.contains_key(k) {
                        o.insert("y".into(), json!({}));
                    } else {
                        o.insert(k.into(), json!({}));
                    }
                    what = format!("two things in {place}");
                }
                _ => rename(r, o),
            }
            return;
        }
        let k = if keys.is_empty() { String::new() } else { r.pick(&keys) };
        let kind = if keys.is_empty() { 0 } else { r.below(6) };
        match kind {
            0 => {
                let near: Vec<&(&str, &str)> = OPTIONAL.iter().filter(|x| x.0 == name).collect();
                let n = if near.is_empty() || r.chance(1, 3) {
                    r.pick(&["memo", "deadline", "to_", "max_slippage", "minimum", "admin", "x"]).to_string()
                } else {
                    let k = r.pick(&near).1;
                    misspelled(r, k)
                };
                what = format!("{n} in {place}");
                o.insert(n, r.pick(&[json!("1"), json!(null), json!(1), json!({})]));
            }
            1 | 2 => rename(r, o),
            3 if !optional(&name, &k) => {
                o.remove(&k);
                what = format!("no {k} in {place}");
            }
            _ => {
                let mut u = unfit(r, &k, &o[&k]);
                while u.is_null() && optional(&name, &k) {
                    u = unfit(r, &k, &o[&k]);
                }
                what = format!("{k} of {place} being {u}");
                o.insert(k, u);
            }
        }
    });
    (serde_json::to_vec(&v).unwrap(), what)
}

/// the same message: other order, other white space, absent for null and null for absent
fn rewritten(r: &mut Rng, m: &Value, of: &str) -> Vec<u8> {
    let mut v = m.clone();
    let mut all = vec![];
    sites(m, of, of.is_empty(), &mut vec![], &mut all);
    // the innermost first: paths stay good
    for (path, name, choice) in all.iter().rev() {
        if *choice || path.iter().any(|k| k == "*") && r.chance(1, 4) {
            continue;
        }
        at(&mut v, path, &mut |x| {
            let o = x.as_object_mut().unwrap();
            o.retain(|k, val| !(val.is_null() && optional(name, k)) || r.chance(1, 3));
            for (_, k) in OPTIONAL.iter().filter(|n| n.0 == name) {
                if !o.contains_key(*k) && r.chance(1, 3) {
                    o.insert(k.to_string(), Value::Null);
                }
            }
        });
    }
    let mut t = String::new();
    write(r, &v, "", &mut t);
    t.into_bytes()
}
fn gap(r: &mut Rng, t: &mut String) {
    if r.chance(1, 4) {
        t.push_str(r.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
    }
}
fn write(r: &mut Rng, v: &Value, of: &str, t: &mut String) {
    gap(r, t);
    match v {
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            r.shuffle(&mut keys);
            t.push('{');
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    t.push(',');
                }
                gap(r, t);
                t.push_str(&serde_json::to_string(k).unwrap());
                gap(r, t);
                t.push(':');
                write(r, &o[k.as_str()], k, t);
            }
            gap(r, t);
            t.push('}');
        }
        Value::Array(a) => {
            t.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    t.push(',');
                }
                write(r, x, of, t);
            }
            gap(r, t);
            t.push(']');
        }
        Value::String(s) if of == "msg" && open(s).is_some() => {
            let mut i = String::new();
            write(r, &open(s).unwrap(), "", &mut i);
            t.push_str(&serde_json::to_string(&Binary::from(i.into_bytes())).unwrap());
        }
        _ => t.push_str(&v.to_string()),
    }
    gap(r, t);
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// instantiations, executions and migrations, by their text
fn put(kind: &CosmosMsg, t: Vec<u8>) -> CosmosMsg {
    let mut m = kind.clone();
    if let CosmosMsg::Wasm(WasmMsg::Execute { msg, .. } | WasmMsg::Instantiate { msg, .. } | WasmMsg::Migrate { msg, .. }) = &mut m {
        *msg = Binary::from(t);
    }
    m
}

/// `m` of `shape` by `who`: accepted as it is, it is refused when spoiled and the same when rewritten
fn judge(cx: &mut Cx, w: &mut World, who: usize, shape: &CosmosMsg, m: &Value, of: &str, wrong: u64) -> V {
    let f = w.fork();
    let one = w.exec_raw(who, put(shape, serde_json::to_vec(m).unwrap()));
    if !one.ok() {
        w.restore(&f);
        cx.count("messages refused as they are");
        return Ok(());
    }
    let end = w.fork();
    for _ in 0..wrong {
        w.restore(&f);
        let (t, what) = spoiled(&mut cx.r, m, of);
        let o = w.exec_raw(who, put(shape, t.clone()));
        cx.eval();
        if o.ok() {
            return Err(format!("a message with {what} was accepted: {} (instead of {m})", text(&t)));
        }
        if o.writes > 0 || !w.same_state(&f) {
            return Err(format!("a message with {what} was refused, but something was written: {}", text(&t)));
        }
        cx.count("malformed messages refused");
        cx.distinct(&format!("{what}{m}"));
        cx.sample(|| format!("{what}: refused"));
    }
    w.restore(&f);
    let t = rewritten(&mut cx.r, m, of);
    let two = w.exec_raw(who, put(shape, t.clone()));
    cx.eval();
    if !two.ok() {
        return Err(format!("refused ({:?}) in this writing: {} (instead of {m})", two.res, text(&t)));
    }
    if two.res != one.res {
        return Err(format!("something else in another writing: {}: {:?} instead of {:?}", text(&t), two.res, one.res));
    }
    if !w.same_state(&end) {
        return Err(format!("another state in another writing: {} (instead of {m}): {:?}", text(&t), w.state_diff(&end)));
    }
    cx.count("messages written another way");
    w.restore(&f);
    Ok(())
}
fn question(cx: &mut Cx, w: &World, c: &str, m: &Value) -> V {
    let ask = |t: Vec<u8>| w.ask_raw(&QueryRequest::<Empty>::Wasm(WasmQuery::Smart { contract_addr: c.into(), msg: Binary::from(t) }));
    let one = w.ask(c, m);
    if one.is_err() {
        return Ok(());
    }
    let (t, what) = spoiled(&mut cx.r, m, "");
    cx.eval();
    if let Ok(a) = ask(t.clone()) {
        return Err(format!("a question with {what} was answered {a}: {} (instead of {m})", text(&t)));
    }
    cx.count("malformed questions refused");
    let t = rewritten(&mut cx.r, m, "");
    cx.eval();
    let two = ask(t.clone());
    if two != one {
        return Err(format!("the question {m} written {} is answered {two:?} instead of {one:?}", text(&t)));
    }
    cx.count("questions written another way");
    Ok(())
}

#[derive(Default)]
pub struct Wire;
impl Wire {
    fn questions(&self, cx: &mut Cx, w: &World) -> V {
        let (f, r) = (w.accts[w.factory].clone(), w.accts[w.router].clone());
        let i = cx.r.idx(w.pairs.len());
        let (p, a) = (w.pair_addr(i), w.pairs[i].a);
        let lp = w.assets[w.pairs[i].lp].name.clone();
        let infos = json!([w.info(a[0]), w.info(a[1])]);
        let u = w.accts[cx.r.idx(w.users)].clone();
        let n = (cx.r.log(40) + 1).to_string();
        let steps = sim::steps_json(w, &[(a[0], a[1])]);
        for (c, m) in [
            (&p, json!({"pair": {}})),
            (&p, json!({"pool": {}})),
            (&p, json!({"simulation": {"offer_asset": w.asset(a[0], 12345)}})),
            (&p, json!({"reverse_simulation": {"ask_asset": w.asset(a[1], 12)}})),
            (&f, json!({"config": {}})),
            (&f, json!({"pair": {"asset_infos": infos}})),
            (&f, json!({"pairs": {"start_after": if cx.r.chance(1, 2) { infos.clone() } else { Value::Null }, "limit": cx.r.range(1, 30)}})),
            (&f, json!({"pairs": {"start_after": null, "limit": null}})),
            (&f, json!({"native_token_decimals": {"denom": w.assets[a[0]].name}})),
            (&r, json!({"config": {}})),
            (&r, json!({"simulate_swap_operations": {"offer_amount": n, "operations": steps}})),
            (&r, json!({"reverse_simulate_swap_operations": {"ask_amount": "1", "operations": steps}})),
            (&lp, json!({"balance": {"address": u}})),
            (&lp, json!({"token_info": {}})),
            (&lp, json!({"minter": {}})),
            (&lp, json!({"allowance": {"owner": u, "spender": p}})),
        ] {
            if cx.r.chance(1, 2) {
                question(cx, w, c, &m)?;
            }
        }
        Ok(())
    }
}
impl Mon for Wire {
    fn profile(&mut self, cx: &mut Cx, p: &mut Profile) {
        *p = Profile { swap: 22, provide: 20, withdraw: 12, route: 26, forge: 0, transfer: 4, ledger: 10, router_misc: 3, mess: 0, admin: 2, steps: 20, guard: 60, tol: 60, ..p.clone() };
        let _ = cx;
    }
    fn start(&mut self, cx: &mut Cx, w: &mut World) -> V {
        let (f, r) = (w.accts[w.factory].clone(), w.accts[w.router].clone());
        let owner = w.owner;
        let exec = |c: &str| CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: c.into(), msg: Binary::default(), funds: vec![] });
        let new = |code: u64| CosmosMsg::Wasm(WasmMsg::Instantiate { admin: None, code_id: code, msg: Binary::default(), funds: vec![], label: "n".into() });
        let migrate = |c: &str, code: u64| CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: c.into(), new_code_id: code, msg: Binary::default() });
        let (x, y) = (cx.r.idx(w.assets.len()), cx.r.idx(w.assets.len()));
        let wl: Vec<usize> = (0..cx.r.idx(3)).collect();
        let pool = w.create_pair_msg([x, y], &wl, [1, 2]);
        judge(cx, w, owner, &exec(&f), &pool, "", 4)?;
        let p = w.pair_addr(cx.r.idx(w.pairs.len()));
        let some = |r: &mut Rng, v: Value| if r.chance(1, 2) { v } else { Value::Null };
        let m = json!({"migrate_pair": {"contract": p, "code_id": some(&mut cx.r, json!(CODE_PAIR))}});
        judge(cx, w, owner, &exec(&f), &m, "", 2)?;
        let m = json!({"update_config": {"owner": some(&mut cx.r, json!(w.accts[0])), "pair_code_id": some(&mut cx.r, json!(CODE_PAIR)), "token_code_id": some(&mut cx.r, json!(CODE_TOKEN))}});
        judge(cx, w, owner, &exec(&f), &m, "", 4)?;
        if let Some(a) = (0..w.assets.len()).find(|a| w.is_native(*a)) {
            let m = json!({"add_native_token_decimals": {"denom": w.assets[a].name, "decimals": 9}});
            judge(cx, w, owner, &exec(&f), &m, "", 2)?;
        }
        // new contracts
        let bals: Vec<Value> = (0..cx.r.idx(4)).map(|i| json!({"address": w.accts[i], "amount": "7"})).collect();
        let mint = json!({"minter": w.accts[0], "cap": some(&mut cx.r, json!("700"))});
        let m = json!({"name": "another", "symbol": "ANO", "decimals": 6, "initial_balances": bals, "mint": some(&mut cx.r, mint)});
        judge(cx, w, owner, &new(CODE_TOKEN), &m, "new token", 4)?;
        let m = json!({"asset_infos": pool["create_pair"]["asset_infos"], "token_code_id": CODE_TOKEN, "asset_decimals": [6, 8], "requirements": pool["create_pair"]["requirements"]});
        judge(cx, w, owner, &new(CODE_PAIR), &m, "new pool", 3)?;
        judge(cx, w, owner, &new(CODE_FACTORY), &json!({"pair_code_id": CODE_PAIR, "token_code_id": CODE_TOKEN}), "new factory", 2)?;
        judge(cx, w, owner, &new(CODE_ROUTER), &json!({"halo_factory": f}), "new router", 1)?;
        for (c, code) in [(&f, CODE_FACTORY), (&r, CODE_ROUTER)] {
            judge(cx, w, owner, &migrate(c, code), &json!({}), "migration", 1)?;
        }
        w.keep = true;
        Ok(())
    }
    fn before(&mut self, cx: &mut Cx, w: &mut World, op: &Op) -> V {
        if matches!(op, Op::Blocks(_)) {
            return Ok(());
        }
        if cx.r.chance(1, 6) {
            self.questions(cx, w)?;
        }
        let f = w.fork();
        w.last = None;
        sim::run(w, op);
        w.restore(&f);
        let Some((who, c, m, funds)) = w.last.take() else { return Ok(()) };
        let funds: Vec<Coin> = funds;
        let shape = CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: c, msg: Binary::default(), funds });
        judge(cx, w, who, &shape, &m, "", 3)
    }
    fn after(&mut self, _: &mut Cx, _: &mut World, _: &Step) -> V {
        Ok(())
    }
}
