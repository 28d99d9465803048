//! The shared library's lookups, conversions and payments, against the chain they speak about.
use crate::check::{Cx, V};
use crate::engine::{foreign, who, Mon, Step};
use crate::gen::{self, Profile};
use crate::sim::{Op, To};
use crate::world::World;
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{Addr, Coin, MessageInfo, Uint128};
use haloswap::asset::{Asset, AssetInfo, PairInfo};
use haloswap::querier as q;
use haloswap::router::SwapOperation;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Helpers;

fn info(v: &Value) -> AssetInfo {
    serde_json::from_value(v.clone()).expect("an asset")
}
fn js<T: serde::Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap()
}
/// the library call, a panic counting as a failure
fn call<T>(f: impl FnOnce() -> cosmwasm_std::StdResult<T>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("panic".into()),
    }
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<T, String>, want: Result<T, String>) -> V {
    match (&got, &want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{what}: the library answers {got:?}, the chain holds {want:?}")),
    }
}

impl Helpers {
    fn lookups(&self, cx: &mut Cx, w: &World) -> V {
        let querier = w.app.wrap();
        let api = MockApi::default();
        let a = cx.r.idx(w.assets.len());
        let c = cx.r.idx(w.accts.len());
        let (acct, have) = if cx.r.chance(1, 12) {
            ("aura1nobody".to_string(), 0)
        } else {
            (w.accts[c].clone(), w.snap.bal[a][c])
        };
        let name = w.assets[a].name.clone();
        let who_ = Addr::unchecked(acct.clone());
        let inf = info(&w.info(a));
        // the asset of the other kind that goes by the same name (a coin may be called like a token's address)
        let twin = (0..w.assets.len()).find(|x| w.is_native(*x) != w.is_native(a) && w.assets[*x].name == name);
        let held = |x: usize| if acct == w.accts[c] { w.snap.bal[x][c] } else { 0 };
        cx.eval();
        if have > 0 {
            cx.distinct(&format!("{a}{acct}{have}"));
        }
        same(
            &format!("what a pool at {acct} holds of {name}"),
            call(|| inf.query_pool(&querier, &api, who_.clone())),
            Ok(Uint128::new(have)),
        )?;
        if w.is_native(a) {
            same(&format!("{name} of {acct}"), call(|| q::query_balance(&querier, who_.clone(), name.clone())), Ok(Uint128::new(have)))?;
            // a token by that name: hardly ever
            let want = twin.map(|x| Uint128::new(held(x))).ok_or_else(String::new);
            same(&format!("the token {name} of {acct}"), call(|| q::query_token_balance(&querier, Addr::unchecked(&name), who_.clone())), want)?;
            let want = twin.map(|x| Uint128::new(w.snap.supply[x])).ok_or_else(String::new);
            same(&format!("supply of the token {name}"), call(|| q::query_token_info(&querier, Addr::unchecked(&name))).map(|t| t.total_supply), want)?;
        } else {
            same(&format!("{name} of {acct}"), call(|| q::query_token_balance(&querier, Addr::unchecked(&name), who_.clone())), Ok(Uint128::new(have)))?;
            same(&format!("the coin {name} of {acct}"), call(|| q::query_balance(&querier, who_.clone(), name.clone())), Ok(Uint128::new(twin.map_or(0, held))))?;
            let t = call(|| q::query_token_info(&querier, Addr::unchecked(&name)));
            let v = w.ask(&name, &json!({"token_info": {}}));
            same(&format!("facts of {name}"), t.map(|t| js(&t)), v)?;
            if let Ok(t) = call(|| q::query_token_info(&querier, Addr::unchecked(&name))) {
                if t.total_supply.u128() != w.snap.supply[a] || t.decimals != w.assets[a].decimals {
                    return Err(format!("{name} has supply {} and {} decimals, the library says {t:?}", w.snap.supply[a], w.assets[a].decimals));
                }
            }
        }
        // everything in coins
        let mut coins: Vec<(String, u128)> = (0..w.assets.len())
            .filter(|x| w.is_native(*x))
            .map(|x| (w.assets[x].name.clone(), if acct == w.accts[c] { w.snap.bal[x][c] } else { 0 }))
            .filter(|x| x.1 > 0)
            .collect();
        coins.sort();
        let got = call(|| q::query_all_balances(&querier, who_.clone())).map(|l| {
            let mut l: Vec<(String, u128)> = l.into_iter().map(|c| (c.denom, c.amount.u128())).collect();
            l.sort();
            l
        });
        same(&format!("all coins of {acct}"), got, Ok(coins))?;
        // decimals
        let f = w.accts[w.factory].clone();
        let fa = Addr::unchecked(&f);
        same(&format!("decimals of {name}"), call(|| inf.query_decimals(fa.clone(), &querier)), Ok(w.assets[a].decimals))?;
        let coin = if w.is_native(a) { Some(a) } else { twin };
        let want = coin.map(|x| w.assets[x].decimals).ok_or_else(String::new);
        same(&format!("registered decimals of {name}"), call(|| q::query_native_decimals(&querier, fa.clone(), name.clone())), want)?;
        let other = if w.is_native(a) { AssetInfo::Token { contract_addr: name.clone() } } else { AssetInfo::NativeToken { denom: name.clone() } };
        same(&format!("decimals of {other:?}"), call(|| other.query_decimals(fa.clone(), &querier)), twin.map(|x| w.assets[x].decimals).ok_or_else(String::new))?;
        // a factory that is none
        let not = Addr::unchecked(cx.r.pick(&[w.accts[0].clone(), w.accts[w.router].clone(), "x".into()]));
        same("decimals by something that is no factory", call(|| q::query_native_decimals(&querier, not.clone(), name.clone())), Err(String::new()))?;
        cx.count("lookups of balances and facts");
        Ok(())
    }
    fn pools(&self, cx: &mut Cx, w: &World) -> V {
        let querier = w.app.wrap();
        let api = MockApi::default();
        let f = Addr::unchecked(w.accts[w.factory].clone());
        cx.eval();
        // a pool by two assets, known or not
        let (x, y) = (cx.r.idx(w.assets.len()), cx.r.idx(w.assets.len()));
        let (x, y) = if cx.r.chance(1, 2) {
            let p = cx.r.idx(w.pairs.len());
            let a = w.pairs[p].a;
            if cx.r.chance(1, 2) {
                (a[0], a[1])
            } else {
                (a[1], a[0])
            }
        } else {
            (x, y)
        };
        let infos = [info(&w.info(x)), info(&w.info(y))];
        let p = w.pairs.iter().position(|p| p.a == [x, y] || p.a == [y, x]);
        let got = call(|| q::query_pair_info(&querier, f.clone(), &infos));
        let want = match p {
            Some(p) => w.ask(&w.accts[w.factory], &json!({"pair": {"asset_infos": [w.info(w.pairs[p].a[0]), w.info(w.pairs[p].a[1])]}})),
            None => Err(String::new()),
        };
        same(&format!("the pool of {} and {}", w.assets[x].name, w.assets[y].name), got.clone().map(|v| js(&v)), want)?;
        let p = match (p, got) {
            (Some(p), Ok(g)) => {
                if g.contract_addr != w.pair_addr(p) {
                    return Err(format!("pool {p} is at {}, the library says {g:?}", w.pair_addr(p)));
                }
                p
            }
            _ => cx.r.idx(w.pairs.len()),
        };
        let pa = Addr::unchecked(w.pair_addr(p));
        let pi: PairInfo = call(|| q::query_pair_info_from_pair(&querier, pa.clone()))?;
        same(&format!("pool {p} about itself"), Ok(js(&pi)), w.ask(&w.pair_addr(p), &json!({"pair": {}})))?;
        same("something that is no pool about itself", call(|| q::query_pair_info_from_pair(&querier, w.addr(w.router))).map(|_| ()), Err(String::new()))?;
        // stored form and back, and the reserves by it
        let raw = haloswap::asset::PairInfoRaw {
            asset_infos: [pi.asset_infos[0].to_raw(&api).map_err(|e| e.to_string())?, pi.asset_infos[1].to_raw(&api).map_err(|e| e.to_string())?],
            contract_addr: cosmwasm_std::Api::addr_canonicalize(&api, &pi.contract_addr).map_err(|e| e.to_string())?,
            liquidity_token: cosmwasm_std::Api::addr_canonicalize(&api, &pi.liquidity_token).map_err(|e| e.to_string())?,
            asset_decimals: pi.asset_decimals,
            requirements: pi.requirements.clone(),
        };
        let back = call(|| raw.to_normal(&api));
        same(&format!("pool {p}'s record, stored and read"), back, Ok(pi.clone()))?;
        let c = if cx.r.chance(1, 3) { cx.r.idx(w.accts.len()) } else { w.pairs[p].acct };
        let got = call(|| raw.query_pools(&querier, &api, w.addr(c)));
        let want: Vec<Value> = (0..2).map(|s| w.asset(w.pairs[p].a[s], w.snap.bal[w.pairs[p].a[s]][c])).collect();
        same(&format!("the reserves of pool {p} at {}", who(w, c)), got.map(|v| js(&v)), Ok(json!(want)))?;
        // quotes
        let side = cx.r.idx(2);
        let amt = gen::amount(&mut cx.r, w.pools(&w.snap, p)[side]);
        let i = if cx.r.chance(1, 6) { foreign(cx, w, p) } else { w.info(w.pairs[p].a[side]) };
        let asset = Asset { info: info(&i), amount: Uint128::new(amt) };
        let ja = json!({"info": i, "amount": amt.to_string()});
        let got = call(|| q::simulate(&querier, pa.clone(), &asset)).map(|v| js(&v));
        same(&format!("a quote of {asset} at pool {p}"), got, w.ask(&w.pair_addr(p), &json!({"simulation": {"offer_asset": ja}})))?;
        let got = call(|| q::reverse_simulate(&querier, pa.clone(), &asset)).map(|v| js(&v));
        let want = w.ask(&w.pair_addr(p), &json!({"reverse_simulation": {"ask_asset": ja}}));
        if want.is_ok() && amt > 0 {
            cx.distinct(&format!("{ja}{want:?}"));
        }
        same(&format!("a reverse quote of {asset} at pool {p}"), got, want)?;
        cx.count("lookups of pools and quotes");
        Ok(())
    }
    fn shapes(&self, cx: &mut Cx, w: &World) -> V {
        let api = MockApi::default();
        cx.eval();
        let a = cx.r.idx(w.assets.len());
        let pick = |cx: &mut Cx| -> Value {
            if cx.r.chance(1, 2) {
                foreign(cx, w, 0)
            } else {
                let i = cx.r.idx(w.assets.len());
                w.info(i)
            }
        };
        let (x, y) = (if cx.r.chance(1, 3) { w.info(a) } else { pick(cx) }, if cx.r.chance(1, 3) { w.info(a) } else { pick(cx) });
        let (ix, iy) = (info(&x), info(&y));
        if ix.equal(&iy) != (x == y) {
            return Err(format!("{x} and {y} are taken for {}", if x == y { "different" } else { "the same" }));
        }
        let name = |v: &Value| v["native_token"]["denom"].as_str().or(v["token"]["contract_addr"].as_str()).unwrap_or("").to_string();
        if ix.to_string() != name(&x) || ix.is_native_token() == x["native_token"].is_null() {
            return Err(format!("{x} is written {ix}, native {}", ix.is_native_token()));
        }
        let amt = cx.r.log(128);
        let asset = Asset { info: ix.clone(), amount: Uint128::new(amt) };
        if asset.to_string() != format!("{amt}{}", name(&x)) || asset.is_native_token() != ix.is_native_token() {
            return Err(format!("{amt} of {x} is written {asset}"));
        }
        let (rx, ry) = (call(|| ix.to_raw(&api)), call(|| iy.to_raw(&api)));
        // an address has two spellings, and is stored as one
        let lower = |v: &Value| !v["token"].is_null() && v["token"]["contract_addr"].as_str().map_or(false, |t| t != t.to_lowercase());
        if lower(&x) || lower(&y) {
            return Ok(());
        }
        if let Ok(rx) = &rx {
            same(&format!("{x} stored and read"), call(|| rx.to_normal(&api)), Ok(ix.clone()))?;
            let ra = call(|| asset.to_raw(&api))?;
            same(&format!("{asset} stored and read"), call(|| ra.to_normal(&api)), Ok(asset.clone()))?;
            if let Ok(ry) = &ry {
                if rx.equal(ry) != (x == y) {
                    return Err(format!("{x} and {y} as stored are taken for {}", if x == y { "different" } else { "the same" }));
                }
            }
        }
        let hop = SwapOperation::HaloSwap { offer_asset_info: ix, ask_asset_info: iy.clone() };
        if hop.get_target_asset_info() != iy {
            return Err(format!("the target of {hop:?} is {:?}", hop.get_target_asset_info()));
        }
        // the attached-coin check
        let n = gen::amount(&mut cx.r, 1000);
        let mut funds: Vec<Coin> = vec![];
        for i in 0..w.assets.len() {
            if w.is_native(i) && cx.r.chance(2, 3) {
                let m = if cx.r.chance(1, 2) { n } else { gen::amount(&mut cx.r, 1000) };
                if m > 0 {
                    funds.push(Coin { denom: w.assets[i].name.clone(), amount: Uint128::new(m) });
                }
            }
        }
        if w.is_native(a) && cx.r.chance(1, 2) {
            // a coin of nearly the same name
            let d = w.assets[a].name.clone();
            let near = match cx.r.below(5) {
                0 => format!("{d}x"),
                1 => d[..d.len() - 1].to_string(),
                2 => format!("x{d}"),
                3 => d.to_uppercase(),
                _ => d.to_lowercase(),
            };
            if near != d && !funds.iter().any(|c| c.denom == near) {
                funds.push(Coin { denom: near, amount: Uint128::new(n.max(1)) });
            }
        }
        cx.r.shuffle(&mut funds);
        let asset = Asset { info: info(&w.info(a)), amount: Uint128::new(n) };
        let sent = funds.iter().find(|c| c.denom == w.assets[a].name).map_or(0, |c| c.amount.u128());
        let want = !w.is_native(a) || sent == n;
        let mi = MessageInfo { sender: w.addr(0), funds };
        let got = call(|| asset.assert_sent_native_token_balance(&mi)).is_ok();
        if got != want {
            return Err(format!("{asset} with {:?} attached is {}", mi.funds, if got { "passed" } else { "refused" }));
        }
        cx.distinct(&format!("{asset}{:?}", mi.funds));
        cx.count("comparisons, conversions and attached-coin checks");
        Ok(())
    }
    fn payment(&self, cx: &mut Cx, w: &mut World) -> V {
        let a = cx.r.idx(w.assets.len());
        let from = (0..w.accts.len()).filter(|c| w.snap.bal[a][*c] > 0).collect::<Vec<_>>();
        let from = if from.is_empty() || cx.r.chance(1, 10) { cx.r.idx(w.accts.len()) } else { cx.r.pick(&from) };
        let to = cx.r.idx(w.accts.len());
        let have = w.snap.bal[a][from];
        let amt = gen::amount(&mut cx.r, have);
        let asset = Asset { info: info(&w.info(a)), amount: Uint128::new(amt) };
        let f = w.fork();
        let msg = if cx.r.chance(1, 2) {
            call(|| asset.clone().into_msg(w.addr(to)))?
        } else {
            call(|| asset.clone().into_submsg(w.addr(to)))?.msg
        };
        let pre = w.snap.clone();
        let o = w.exec_raw(from, msg);
        w.observe();
        let mut want = pre.clone();
        let ok = amt > 0 && amt <= have;
        if ok {
            want.bal[a][from] -= amt;
            want.bal[a][to] += amt;
        }
        let got = w.snap.clone();
        let d = crate::engine::sheet_diff(w, &got, &want);
        w.restore(&f);
        cx.eval();
        cx.count(if ok { "payments made" } else { "payments refused" });
        if ok != o.ok() {
            return Err(format!("a payment of {asset} by {} (who has {have}) to {} was {}", who(w, from), who(w, to), if o.ok() { "made".into() } else { format!("refused: {}", o.err()) }));
        }
        if !d.is_empty() {
            return Err(format!("a payment of {asset} by {} to {}: {}", who(w, from), who(w, to), d.join("; ")));
        }
        if ok {
            cx.distinct(&format!("{asset}{from}{to}{have}"));
            cx.sample(|| format!("{asset} from {} to {}", who(w, from), who(w, to)));
        }
        Ok(())
    }
}

impl Mon for Helpers {
    fn gen(&mut self, cx: &mut Cx, w: &World, p: &Profile) -> Op {
        if cx.r.chance(1, 5) {
            // a unit or two for anybody, contracts that never hold any included
            let asset = cx.r.idx(w.assets.len());
            let from = gen::rich(&mut cx.r, w, asset);
            let to = To::Acct(cx.r.idx(w.accts.len()));
            return Op::Transfer { asset, from, to, amt: cx.r.range(1, 2) as u128 };
        }
        gen::op(&mut cx.r, w, p)
    }
    fn profile(&mut self, cx: &mut Cx, p: &mut Profile) {
        p.steps = 30;
        p.max_natives = if cx.r.chance(1, 4) { 7 } else { 3 };
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, _: &Step) -> V {
        for _ in 0..2 {
            self.lookups(cx, w)?;
            self.pools(cx, w)?;
            self.shapes(cx, w)?;
        }
        if cx.r.chance(1, 3) {
            self.payment(cx, w)?;
        }
        Ok(())
    }
}
