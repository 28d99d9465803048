//! A hostile token: it answers the token queries and takes the token messages, but lies, keeps back,
//! calls out, or fails, as its current script says.
use anyhow::{bail, Result as AnyResult};
use cosmwasm_std::{
    Binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply, Response, StdError, StdResult,
    Storage, WasmMsg,
};
use cw_multi_test::Contract;
use serde_json::{json, Value};

// stored as text under plain keys
fn get(s: &dyn Storage, k: &str) -> Value {
    s.get(k.as_bytes())
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or(Value::Null)
}
fn put(s: &mut dyn Storage, k: &str, v: &Value) {
    s.set(k.as_bytes(), &serde_json::to_vec(v).unwrap());
}
fn bal(s: &dyn Storage, a: &str) -> u128 {
    crate::world::num(&get(s, &format!("b:{a}")))
}
fn set_bal(s: &mut dyn Storage, a: &str, v: u128) {
    put(s, &format!("b:{a}"), &json!(v.to_string()))
}

fn instantiate(deps: DepsMut, _: Env, _: MessageInfo, msg: Value) -> StdResult<Response> {
    for b in msg["initial_balances"].as_array().cloned().unwrap_or_default() {
        set_bal(deps.storage, b["address"].as_str().unwrap_or(""), crate::world::num(&b["amount"]));
    }
    put(deps.storage, "decimals", &msg["decimals"]);
    put(deps.storage, "script", &json!({}));
    Ok(Response::new())
}

/// script: {"tax": percent, "lie": "amount", "fail": bool, "calls": [{"to":.., "msg":..}], "skip": bool}
fn calls(s: &mut dyn Storage, left: bool) -> Vec<CosmosMsg> {
    let sc = get(s, "script");
    let n = sc["rounds"].as_u64().unwrap_or(1);
    if n == 0 || !left {
        return vec![];
    }
    let mut sc2 = sc.clone();
    sc2["rounds"] = json!(n - 1);
    put(s, "script", &sc2);
    sc["calls"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|c| {
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: c["to"].as_str().unwrap_or("").into(),
                msg: Binary::from(serde_json::to_vec(&c["msg"]).unwrap()),
                funds: vec![],
            })
        })
        .collect()
}

fn execute(deps: DepsMut, _env: Env, info: MessageInfo, msg: Value) -> StdResult<Response> {
    let m = msg;
    let sc = get(deps.storage, "script");
    let fail = || StdError::generic_err("evil");
    if let Some(s) = m.get("script") {
        put(deps.storage, "script", s);
        return Ok(Response::new());
    }
    if let Some(s) = m.get("run") {
        // make calls in the token's own name right now
        put(deps.storage, "script", s);
        let c = calls(deps.storage, true);
        return Ok(Response::new().add_messages(c));
    }
    if sc["fail"] == json!(true) {
        return Err(fail());
    }
    let tax = sc["tax"].as_u64().unwrap_or(0) as u128;
    let skip = sc["skip"] == json!(true);
    let mv = |s: &mut dyn Storage, from: &str, to: &str, n: u128| -> StdResult<()> {
        if skip {
            return Ok(());
        }
        let b = bal(s, from);
        if b < n {
            return Err(StdError::generic_err("insufficient"));
        }
        set_bal(s, from, b - n);
        let t = bal(s, to);
        set_bal(s, to, t.saturating_add(n - n / 100 * tax));
        Ok(())
    };
    let sender = info.sender.to_string();
    let str_of = |v: &Value| v.as_str().unwrap_or("").to_string();
    let mut out = Response::new();
    if let Some(b) = m.get("transfer") {
        mv(deps.storage, &sender, &str_of(&b["recipient"]), crate::world::num(&b["amount"]))?;
    } else if let Some(b) = m.get("transfer_from") {
        mv(deps.storage, &str_of(&b["owner"]), &str_of(&b["recipient"]), crate::world::num(&b["amount"]))?;
    } else if let Some(b) = m.get("send") {
        let n = crate::world::num(&b["amount"]);
        let to = str_of(&b["contract"]);
        mv(deps.storage, &sender, &to, n)?;
        let claim = if sc["claim"].is_string() { sc["claim"].clone() } else { b["amount"].clone() };
        out = out.add_message(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: to,
            msg: Binary::from(
                serde_json::to_vec(&json!({"receive": {"sender": sender, "amount": claim, "msg": b["msg"]}})).unwrap(),
            ),
            funds: vec![],
        }));
    } else if m.get("increase_allowance").is_some() || m.get("decrease_allowance").is_some() {
    } else if m.get("mint").is_some() || m.get("burn").is_some() {
    } else if m.get("receive").is_some() {
    } else {
        return Err(fail());
    }
    let c = calls(deps.storage, true);
    Ok(out.add_messages(c))
}

fn query(deps: Deps, _env: Env, msg: Value) -> StdResult<Binary> {
    let m = msg;
    let sc = get(deps.storage, "script");
    let raw = |v: Value| Ok(Binary::from(serde_json::to_vec(&v).unwrap()));
    if sc["deaf"] == json!(true) {
        return Err(StdError::generic_err("evil"));
    }
    if let Some(b) = m.get("balance") {
        if sc["lie"].is_string() {
            return raw(json!({"balance": sc["lie"]}));
        }
        return raw(json!({"balance": bal(deps.storage, b["address"].as_str().unwrap_or("")).to_string()}));
    }
    // it says of itself what another contract says of itself
    if let (Some(mask), Some(k)) = (sc["mask"].as_object(), m.as_object().and_then(|o| o.keys().next())) {
        if let Some(v) = mask.get(k) {
            return raw(v.clone());
        }
    }
    if m.get("token_info").is_some() {
        return raw(json!({"name": "evil", "symbol": "EVIL", "decimals": if sc["decimals"].is_u64() { sc["decimals"].clone() } else { get(deps.storage, "decimals") }, "total_supply": "1"}));
    }
    if m.get("allowance").is_some() {
        return raw(json!({"allowance": u128::MAX.to_string(), "expires": {"never": {}}}));
    }
    // it also plays a pool and a factory for whoever asks
    raw(json!({}))
}

struct Evil;
fn val(msg: Vec<u8>) -> AnyResult<Value> {
    Ok(serde_json::from_slice(&msg)?)
}
impl Contract<Empty> for Evil {
    fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        Ok(execute(deps, env, info, val(msg)?)?)
    }
    fn instantiate(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        Ok(instantiate(deps, env, info, val(msg)?)?)
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        Ok(query(deps, env, val(msg)?)?)
    }
    fn sudo(&self, _: DepsMut, _: Env, _: Vec<u8>) -> AnyResult<Response> {
        bail!("no sudo")
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> AnyResult<Response> {
        bail!("no reply")
    }
    fn migrate(&self, _: DepsMut, _: Env, _: Vec<u8>) -> AnyResult<Response> {
        Ok(Response::new())
    }
}

pub fn contract() -> Box<dyn Contract<Empty>> {
    Box::new(Evil)
}
