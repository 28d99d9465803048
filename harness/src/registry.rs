//! The factory: who may change what, which pools exist, how they are listed, where decimals come from.
use crate::check::{Cx, V};
use crate::rng::Rng;
use crate::world::{bin, num, ExecOut, World, CODE_EVIL, CODE_PAIR, CODE_PAIR2, CODE_TOKEN, CODE_TOKEN2};
use cosmwasm_std::{BankMsg, Coin, CosmosMsg, WasmMsg};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum A {
    Coin(String),
    Token(String), // lower case
}
impl A {
    fn json(&self, loud: bool) -> Value {
        match self {
            A::Coin(d) => json!({"native_token": {"denom": d}}),
            A::Token(t) => json!({"token": {"contract_addr": if loud { t.to_uppercase() } else { t.clone() }}}),
        }
    }
}

#[derive(Clone, Debug)]
struct Rec {
    a: [A; 2],
    contract: String,
    record: Value,
}

struct Reg {
    w: World,
    owner: usize,
    pair_code: u64,
    token_code: u64,
    coins: BTreeMap<String, u8>,   // registered
    tokens: BTreeMap<String, u8>,  // every contract that answers as a token
    funded: BTreeMap<String, bool>, // does the factory hold some
    pairs: Vec<Rec>,
    denoms: Vec<String>,
    others: Vec<String>, // addresses that are no tokens
    refused: bool,
}

fn collide(x: &[A; 2], y: &[A; 2]) -> bool {
    // two different pools of coins whose names, in order, join to the same text
    let join = |a: &[A; 2]| -> Option<String> {
        match (&a[0], &a[1]) {
            (A::Coin(p), A::Coin(q)) => Some(if p <= q { format!("{p}{q}") } else { format!("{q}{p}") }),
            _ => None,
        }
    };
    let same = (x[0] == y[0] && x[1] == y[1]) || (x[0] == y[1] && x[1] == y[0]);
    !same && join(x).is_some() && join(x) == join(y)
}
const JOINED: &str = "joined-denominations";

impl Reg {
    fn new(r: &mut Rng, tokens: usize, denoms: Vec<String>) -> Result<Reg, String> {
        let natives: Vec<(String, u128)> = denoms.iter().map(|d| (d.clone(), 1_000_000)).collect();
        let mut w = World::new(&natives);
        w.start(r);
        w.deploy()?;
        let mut g = Reg {
            owner: w.owner,
            pair_code: CODE_PAIR,
            token_code: CODE_TOKEN,
            coins: BTreeMap::new(),
            tokens: BTreeMap::new(),
            funded: BTreeMap::new(),
            pairs: vec![],
            denoms,
            others: vec![w.accts[0].clone(), w.accts[w.factory].clone(), w.accts[w.router].clone(), "contract99".into(), "x".into(), "".into()],
            refused: false,
            w,
        };
        for _ in 0..tokens {
            if r.chance(1, 4) {
                let d = r.pick(&[0u8, 6, 18, 19, 77, 255]);
                let o = g.w.owner;
                let a = g.w.instantiate(o, CODE_EVIL, &json!({"decimals": d, "initial_balances": []}), None)?;
                g.tokens.insert(g.w.accts[a].clone(), d);
            } else {
                let d = r.below(19) as u8;
                let i = g.w.token(d, 1000, None, None)?;
                g.tokens.insert(g.w.assets[i].name.clone(), d);
            }
        }
        Ok(g)
    }
    fn factory(&self) -> String {
        self.w.accts[self.w.factory].clone()
    }
    fn call(&mut self, cx: &mut Cx, who: usize, msg: &Value) -> ExecOut {
        let f = self.factory();
        let o = self.w.exec(who, &f, msg, &[]);
        cx.log.push(format!("{} -> factory {msg}", self.w.accts[who]));
        cx.log.push(match &o.res {
            Ok(_) => "  accepted".into(),
            Err(e) => format!("  refused: {e}"),
        });
        o
    }
    fn ask(&self, msg: &Value) -> Result<Value, String> {
        self.w.ask(&self.factory(), msg)
    }
    fn dec(&self, a: &A) -> Option<u8> {
        match a {
            A::Coin(d) => self.coins.get(d).copied(),
            A::Token(t) => self.tokens.get(t).copied(),
        }
    }
    fn find(&self, a: &[A; 2]) -> Option<&Rec> {
        self.pairs.iter().find(|p| (p.a[0] == a[0] && p.a[1] == a[1]) || (p.a[0] == a[1] && p.a[1] == a[0]))
    }
    fn any(&self, r: &mut Rng, odd: u64) -> A {
        if r.chance(odd, 100) {
            return match r.below(6) {
                0 => A::Coin("unknown".into()),
                // a token called like a coin, a coin called like a token
                1 if !self.denoms.is_empty() => A::Token(r.pick(&self.denoms).to_lowercase()),
                2 if !self.tokens.is_empty() => A::Coin(self.tokens.keys().nth(r.idx(self.tokens.len())).unwrap().clone()),
                _ => A::Token(r.pick(&self.others)),
            };
        }
        let n = self.tokens.len() + self.denoms.len();
        let i = r.idx(n);
        if i < self.tokens.len() {
            A::Token(self.tokens.keys().nth(i).unwrap().clone())
        } else {
            A::Coin(self.denoms[i - self.tokens.len()].clone())
        }
    }
    fn fund(&mut self, denom: &str) -> V {
        let f = self.factory();
        self.w
            .exec_raw(
                0,
                CosmosMsg::Bank(BankMsg::Send { to_address: f, amount: vec![Coin { denom: denom.into(), amount: 1u128.into() }] }),
            )
            .res
            .map_err(|e| format!("harness: {e}"))?;
        self.funded.insert(denom.into(), true);
        Ok(())
    }
    /// the factory's coins can leave it (another code in between, or a module of the chain)
    fn drain(&mut self, denom: &str) -> V {
        let (fi, f) = (self.w.factory, self.factory());
        let n = self.w.native_balance(&f, denom);
        if n > 0 {
            let to = self.w.accts[0].clone();
            self.w
                .exec_raw(fi, CosmosMsg::Bank(BankMsg::Send { to_address: to, amount: vec![Coin { denom: denom.into(), amount: n.into() }] }))
                .res
                .map_err(|e| format!("harness: {e}"))?;
        }
        self.funded.insert(denom.into(), false);
        Ok(())
    }
    fn register(&mut self, cx: &mut Cx, who: usize, denom: &str, dec: u8) -> V {
        let may = who == self.owner && self.funded.get(denom).copied().unwrap_or(false);
        let before = self.coins.get(denom).copied();
        let o = self.call(cx, who, &json!({"add_native_token_decimals": {"denom": denom, "decimals": dec}}));
        cx.eval();
        if o.ok() != may {
            return Err(format!(
                "registering {denom} by {} with{} a balance of the factory: {}",
                if who == self.owner { "the owner" } else { "somebody else" },
                if self.funded.get(denom).copied().unwrap_or(false) { "" } else { "out" },
                if may { format!("refused: {}", o.err()) } else { "accepted".into() }
            ));
        }
        if may {
            self.coins.insert(denom.into(), dec);
        }
        let now = self.ask(&json!({"native_token_decimals": {"denom": denom}})).ok().and_then(|v| v["decimals"].as_u64());
        let want = if may { Some(dec as u64) } else { before.map(|d| d as u64) };
        if now != want {
            return Err(format!("the registry states {now:?} decimals for {denom} instead of {want:?}"));
        }
        Ok(())
    }
    /// try to create a pool and check everything about the outcome
    fn create(&mut self, cx: &mut Cx, a: [A; 2], loud: [bool; 2]) -> V {
        let who = cx.r.idx(self.w.users);
        let mut wl: Vec<String> = (0..self.w.users).filter(|_| cx.r.chance(1, 4)).map(|u| self.w.accts[u].clone()).collect();
        if cx.r.chance(1, 8) {
            wl.push(cx.r.pick(&crate::gen::ODD_NAMES).to_string());
            wl.push(format!("contract{}", self.w.contracts + cx.r.idx(3)));
        }
        cx.r.shuffle(&mut wl);
        let req = json!({"whitelist": wl,
            "first_asset_minimum": cx.r.log(127).to_string(), "second_asset_minimum": cx.r.log(127).to_string()});
        let msg = json!({"create_pair": {"asset_infos": [a[0].json(loud[0]), a[1].json(loud[1])], "requirements": req}});
        let decs = [self.dec(&a[0]), self.dec(&a[1])];
        let known_code = (self.pair_code == CODE_PAIR || self.pair_code == CODE_PAIR2) && (self.token_code == CODE_TOKEN || self.token_code == CODE_TOKEN2);
        let exists = self.find(&a).is_some();
        let why = if a[0] == a[1] {
            Some("one asset twice")
        } else if decs.iter().any(|d| d.is_none()) {
            Some("an asset without decimals")
        } else if exists {
            Some("the pool exists")
        } else if !known_code {
            Some("no such code")
        } else {
            None
        };
        let f = self.w.fork();
        let o = self.call(cx, who, &msg);
        cx.eval();
        cx.count(match why {
            None => "creations to be accepted",
            Some("one asset twice") => "creations refused: one asset twice",
            Some("an asset without decimals") => "creations refused: an asset without decimals",
            Some("the pool exists") => "creations refused: the pool exists",
            _ => "creations refused: no such code",
        });
        cx.distinct(&msg.to_string());
        match (why, o.ok()) {
            (Some(why), true) => return Err(format!("a pool was created although it has to be refused ({why}): {msg}")),
            (None, false) => {
                if self.pairs.iter().any(|p| collide(&p.a, &a)) {
                    self.refused = true;
                    return cx.known(
                        JOINED,
                        "a pool of two coins cannot be created while a pool exists whose two denominations join to the same text".into(),
                    );
                }
                return Err(format!("creating a pool was refused: {} for {msg}", o.err()));
            }
            (Some(_), false) => {
                if !self.w.same_state(&f) {
                    return Err("a refused creation changed the state".into());
                }
                return Ok(());
            }
            _ => {}
        }
        let contract = format!("contract{}", self.w.contracts);
        let lp = format!("contract{}", self.w.contracts + 1);
        // the new pool is announced
        let f = self.factory();
        let said: Vec<(String, String)> = o
            .events()
            .iter()
            .filter(|e| e.attributes.iter().any(|a| a.key == "_contract_addr" && a.value == f))
            .flat_map(|e| e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())))
            .collect();
        for (k, v) in [("pair_contract_addr", &contract), ("liquidity_token_addr", &lp)] {
            let all: Vec<&String> = said.iter().filter(|x| x.0 == k).map(|x| &x.1).collect();
            if all.len() != 1 || all[0] != v {
                return Err(format!("the creation announced {k} {all:?} instead of {v}"));
            }
        }
        self.w.contracts += 2;
        self.w.add_acct(&contract);
        self.w.add_acct(&lp);
        let record = json!({
            "asset_infos": [a[0].json(false), a[1].json(false)],
            "contract_addr": contract,
            "liquidity_token": lp,
            "asset_decimals": [decs[0].unwrap(), decs[1].unwrap()],
            "requirements": req,
        });
        self.tokens.insert(lp.clone(), 6);
        self.pairs.push(Rec { a: a.clone(), contract: contract.clone(), record: record.clone() });
        cx.sample(|| format!("created {record}"));
        // its code, and who can migrate it
        let want = [(contract, self.pair_code, Some(self.factory())), (lp, self.token_code, None)];
        for (c, code, admin) in want {
            let q = cosmwasm_std::QueryRequest::Wasm(cosmwasm_std::WasmQuery::ContractInfo { contract_addr: c.clone() });
            let v = self.w.ask_raw(&q).map_err(|e| format!("{c}: {e}"))?;
            if v["code_id"].as_u64() != Some(code) || v["admin"].as_str().map(|s| s.to_string()) != admin {
                return Err(format!("{c} runs code {} with admin {} instead of {code} and {admin:?}", v["code_id"], v["admin"]));
            }
        }
        self.look(cx, self.pairs.len() - 1)
    }
    /// one pool, by both orders and spellings, from the factory and from the pool
    fn look(&self, cx: &mut Cx, i: usize) -> V {
        let p = &self.pairs[i];
        for k in 0..2 {
            let loud = cx.r.chance(1, 5);
            cx.eval();
            let got = self
                .ask(&json!({"pair": {"asset_infos": [p.a[k].json(loud), p.a[1 - k].json(loud)]}}))
                .map_err(|e| format!("pool {:?} is not found: {e}", p.a))?;
            if got != p.record {
                return Err(format!("the factory states {got} instead of {}", p.record));
            }
        }
        let got = self.w.ask(&p.contract, &json!({"pair": {}})).map_err(|e| format!("{} does not answer: {e}", p.contract))?;
        if got != p.record {
            return Err(format!("the pool states {got}, the factory {}", p.record));
        }
        Ok(())
    }
    fn absent(&self, cx: &mut Cx, a: [A; 2]) -> V {
        if self.find(&a).is_some() {
            return Ok(());
        }
        cx.eval();
        cx.count("lookups of pools that do not exist");
        match self.ask(&json!({"pair": {"asset_infos": [a[0].json(false), a[1].json(false)]}})) {
            Ok(v) => {
                if self.pairs.iter().any(|p| collide(&p.a, &a)) {
                    return cx.known(JOINED, "asking for a pool of two coins answers with another one whose two denominations join to the same text".into());
                }
                Err(format!("there is no pool of {a:?}, but the factory states {v}"))
            }
            Err(_) => Ok(()),
        }
    }
    fn config(&self, cx: &mut Cx) -> V {
        cx.eval();
        let want = json!({"owner": self.w.accts[self.owner], "pair_code_id": self.pair_code, "token_code_id": self.token_code});
        let got = self.ask(&json!({"config": {}}))?;
        if got != want {
            return Err(format!("the factory states {got} instead of {want}"));
        }
        Ok(())
    }
    fn update(&mut self, cx: &mut Cx) -> V {
        let who = if cx.r.chance(1, 2) { self.owner } else { cx.r.idx(self.w.accts.len()) };
        let new = match cx.r.below(8) {
            0 | 1 => Some(cx.r.idx(self.w.users)),
            _ => None,
        };
        let bad = cx.r.chance(1, 12);
        let pc = if cx.r.chance(1, 3) { Some(cx.r.pick(&[CODE_PAIR, CODE_PAIR2, CODE_PAIR2, 99, CODE_TOKEN, self.pair_code, self.token_code, 0, u64::MAX])) } else { None };
        let tc = if cx.r.chance(1, 3) { Some(cx.r.pick(&[CODE_TOKEN, CODE_TOKEN2, CODE_TOKEN2, 98, CODE_PAIR, self.token_code, self.pair_code, 0, u64::MAX])) } else { None };
        let owner = if bad { json!("X") } else { json!(new.map(|n| self.w.accts[n].clone())) };
        let mut body = json!({"owner": owner, "pair_code_id": pc, "token_code_id": tc});
        if cx.r.chance(1, 2) {
            // leave out what is not set
            body.as_object_mut().unwrap().retain(|_, v| !v.is_null());
        }
        let f = self.w.fork();
        let o = self.call(cx, who, &json!({ "update_config": body }));
        cx.eval();
        let may = who == self.owner && !bad;
        if o.ok() != may {
            return Err(format!(
                "a change of the settings by {} ({body}) was {}",
                if who == self.owner { "the owner" } else { "somebody else" },
                if may { format!("refused: {}", o.err()) } else { "accepted".into() }
            ));
        }
        if may {
            if let Some(n) = new {
                if n != self.owner {
                    cx.count("changes of the owner");
                }
                self.owner = n;
            }
            self.pair_code = pc.unwrap_or(self.pair_code);
            self.token_code = tc.unwrap_or(self.token_code);
        } else if !self.w.same_state(&f) {
            return Err("a refused change of the settings changed the state".into());
        }
        cx.count(if may { "changes of the settings accepted" } else { "changes of the settings refused" });
        cx.distinct(&format!("{who}{body}{}{}{}", self.owner, self.pair_code, self.token_code));
        cx.sample(|| format!("{} asks for {body}: {}", self.w.accts[who], if may { "done" } else { "refused" }));
        self.config(cx)
    }
    fn migrate(&mut self, cx: &mut Cx) -> V {
        if self.pairs.is_empty() {
            return Ok(());
        }
        let i = cx.r.idx(self.pairs.len());
        let c = self.pairs[i].contract.clone();
        let who = if cx.r.chance(1, 2) { self.owner } else { cx.r.idx(self.w.accts.len()) };
        let code = if cx.r.chance(1, 2) { Some(cx.r.pick(&[CODE_PAIR, CODE_PAIR2, 97])) } else { None };
        let to = code.unwrap_or(self.pair_code);
        let may = who == self.owner && (to == CODE_PAIR || to == CODE_PAIR2);
        let f = self.w.fork();
        let o = self.call(cx, who, &json!({"migrate_pair": {"contract": c, "code_id": code}}));
        cx.eval();
        if o.ok() != may {
            return Err(format!(
                "migrating a pool to code {to} by {} was {}",
                if who == self.owner { "the owner" } else { "somebody else" },
                if may { format!("refused: {}", o.err()) } else { "accepted".into() }
            ));
        }
        cx.count(if may { "migrations accepted" } else { "migrations refused" });
        cx.distinct(&format!("m{who}{i}{code:?}{}", self.owner));
        if may {
            let q = cosmwasm_std::QueryRequest::Wasm(cosmwasm_std::WasmQuery::ContractInfo { contract_addr: c.clone() });
            let v = self.w.ask_raw(&q)?;
            if v["code_id"].as_u64() != Some(to) {
                return Err(format!("a pool migrated to code {to} runs {}", v["code_id"]));
            }
        } else if !self.w.same_state(&f) {
            return Err("a refused migration changed the state".into());
        }
        self.look(cx, i)?;
        // nobody goes round the factory
        let who = cx.r.idx(self.w.users);
        let o = self.w.exec_raw(who, CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: c, new_code_id: CODE_PAIR, msg: bin(&json!({})) }));
        if o.ok() {
            return Err(format!("{} migrated a pool without the factory", self.w.accts[who]));
        }
        Ok(())
    }
    /// a token changes its mind about its decimals
    fn reconsider(&mut self, cx: &mut Cx) -> bool {
        let evil: Vec<String> = self.tokens.keys().cloned().collect();
        let t = cx.r.pick(&evil);
        let d = cx.r.below(256) as u8;
        let r = self.w.exec(self.owner, &t, &json!({"script": {"decimals": d}}), &[]);
        if r.ok() {
            self.tokens.insert(t, d);
            cx.count("tokens that changed their decimals");
        }
        r.ok()
    }
    fn pages(&self, limit: Option<u64>, after: Option<&[A; 2]>) -> Result<Vec<Value>, String> {
        let mut body = json!({});
        if let Some(l) = limit {
            body["limit"] = json!(l);
        }
        if let Some(a) = after {
            body["start_after"] = json!([a[0].json(false), a[1].json(false)]);
        }
        Ok(self.ask(&json!({ "pairs": body }))?["pairs"].as_array().cloned().unwrap_or_default())
    }
    /// walk the listing with one page size
    fn walk(&self, cx: &mut Cx, limit: Option<u64>) -> Result<Vec<usize>, String> {
        let size = limit.unwrap_or(10).min(30) as usize;
        let mut seen: Vec<usize> = vec![];
        let mut after: Option<[A; 2]> = None;
        loop {
            cx.eval();
            let page = self.pages(limit, after.as_ref())?;
            let left = self.pairs.len() - seen.len();
            if page.len() != size.min(left) {
                return Err(format!("a page of {limit:?} after {after:?} has {} pools, {left} of {} are left", page.len(), self.pairs.len()));
            }
            if page.is_empty() {
                return Ok(seen);
            }
            for v in page {
                let i = self
                    .pairs
                    .iter()
                    .position(|p| p.record == v)
                    .ok_or_else(|| format!("the listing has {v}, which is no pool"))?;
                if seen.contains(&i) {
                    return Err(format!("the listing has {v} twice"));
                }
                seen.push(i);
            }
            let l = &self.pairs[*seen.last().unwrap()].a;
            after = Some(if cx.r.chance(1, 2) { l.clone() } else { [l[1].clone(), l[0].clone()] });
            if seen.len() == self.pairs.len() && cx.r.chance(1, 2) {
                return Ok(seen);
            }
        }
    }
}

fn names(r: &mut Rng, n: usize) -> Vec<String> {
    // chains reject shorter names; prefixes of one another on purpose
    let pool = [
        "abc", "abcd", "abcu", "uaura", "uaura1", "aura1", "uusd", "uusdc", "ibc/27394fb0", "ibc/27394fb092", "aaa", "aaaa", "zzz", "factory/x/y",
        "factory/x/yy", "uatom", "contract1x", "ABC", "a.b-c", "u:x",
    ];
    let mut v: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    // coins somebody issues under their own address
    for _ in 0..2 {
        let u = r.idx(crate::world::USERS.len());
        v.push(format!("factory/{}/gem", crate::world::USERS[u]));
    }
    v.dedup();
    r.shuffle(&mut v);
    v.truncate(n);
    if r.chance(1, 6) {
        // a coin that is called like one of the tokens
        let i = r.idx(v.len());
        v[i] = r.pick(&["contract2", "contract3"]).into();
    }
    v
}

fn boot(cx: &mut Cx, tokens: usize, coins: usize, register: u64) -> Result<Option<Reg>, String> {
    let d = names(&mut cx.r, coins);
    let mut g = match Reg::new(&mut cx.r, tokens, d) {
        Ok(g) => g,
        Err(e) => {
            cx.note(format!("deployment refused: {e}"));
            cx.count("deployments refused");
            return Ok(None);
        }
    };
    for d in g.denoms.clone() {
        if cx.r.chance(register, 100) {
            g.fund(&d)?;
            let dec = cx.r.pick(&[0u8, 6, 8, 18, 30, 255]);
            let o = g.owner;
            g.register(cx, o, &d, dec)?;
        }
    }
    Ok(Some(g))
}

/// P18
pub fn authority(cx: &mut Cx) -> V {
    let mut g = match boot(cx, 3, 3, 60)? {
        Some(g) => g,
        None => return Ok(()),
    };
    g.config(cx)?;
    for _ in 0..40 {
        match cx.r.below(10) {
            0..=4 => g.update(cx)?,
            5 => {
                let d = cx.r.pick(&g.denoms);
                if cx.r.chance(1, 2) {
                    g.fund(&d)?;
                } else if cx.r.chance(1, 3) {
                    g.drain(&d)?;
                }
                let who = if cx.r.chance(1, 2) { g.owner } else { cx.r.idx(g.w.accts.len()) };
                let dec = cx.r.below(256) as u8;
                g.register(cx, who, &d, dec)?;
            }
            6 | 7 => g.migrate(cx)?,
            _ => {
                let a = [g.any(&mut cx.r, 3), g.any(&mut cx.r, 3)];
                if !g.pairs.iter().any(|p| collide(&p.a, &a)) {
                    g.create(cx, a, [false; 2])?;
                }
            }
        }
        if cx.r.chance(1, 6) {
            g.config(cx)?;
        }
    }
    // nobody but the admin replaces the factory's or the router's code
    for c in [g.w.factory, g.w.router] {
        let c = g.w.accts[c].clone();
        let who = cx.r.idx(g.w.users - 1);
        let code = cx.r.range(4, 5);
        let o = g.w.exec_raw(who, CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: c.clone(), new_code_id: code, msg: bin(&json!({})) }));
        if o.ok() {
            return Err(format!("{who} migrated {c}"));
        }
    }
    g.config(cx)
}

/// P19
pub fn unique(cx: &mut Cx) -> V {
    if cx.case == 0 {
        return joined(cx);
    }
    // now and then more pools than a page of the listing holds
    let many = cx.r.chance(1, 60);
    let (t, c) = if many { (cx.r.range(8, 12) as usize, cx.r.range(6, 9) as usize) } else { (cx.r.range(1, 5) as usize, cx.r.range(1, 6) as usize) };
    let mut g = match boot(cx, t, c, 85)? {
        Some(g) => g,
        None => return Ok(()),
    };
    if many {
        cx.count("registries of many pools");
    }
    for _ in 0..if many { 150 } else { 30 } {
        match cx.r.below(12) {
            0..=6 => {
                let odd = if many { 1 } else { 8 };
                let mut a = [g.any(&mut cx.r, odd), g.any(&mut cx.r, odd)];
                if cx.r.chance(1, 4) && !g.pairs.is_empty() {
                    a = cx.r.pick(&g.pairs).a.clone();
                    if cx.r.chance(1, 2) {
                        a.swap(0, 1);
                    }
                }
                let loud = [cx.r.chance(1, 6), cx.r.chance(1, 6)];
                g.create(cx, a, loud)?;
            }
            7 | 8 => {
                if !g.pairs.is_empty() {
                    let i = cx.r.idx(g.pairs.len());
                    g.look(cx, i)?;
                }
            }
            9 | 10 => {
                let a = [g.any(&mut cx.r, 8), g.any(&mut cx.r, 8)];
                g.absent(cx, a)?;
            }
            _ => {
                let o = g.owner;
                let d = cx.r.pick(&g.denoms);
                g.fund(&d)?;
                let dec = cx.r.below(19) as u8;
                g.register(cx, o, &d, dec)?;
            }
        }
    }
    for i in 0..g.pairs.len() {
        g.look(cx, i)?;
    }
    Ok(())
}
/// P19, the recorded case
fn joined(cx: &mut Cx) -> V {
    let denoms = ["abc", "uaura1", "abcu", "aura1"].map(|s| s.to_string()).to_vec();
    let mut g = match Reg::new(&mut cx.r, 1, denoms.clone()) {
        Ok(g) => g,
        Err(_) => return Ok(()),
    };
    for d in &denoms {
        g.fund(d)?;
        let o = g.owner;
        g.register(cx, o, d, 6)?;
    }
    let c = |s: &str| A::Coin(s.into());
    g.create(cx, [c("abc"), c("uaura1")], [false; 2])?;
    g.absent(cx, [c("abcu"), c("aura1")])?;
    g.create(cx, [c("abcu"), c("aura1")], [false; 2])
}

/// P31: what the tokens and the registry say has changed since the pools were made
pub fn migrations(cx: &mut Cx) -> V {
    let (t, c) = (cx.r.range(2, 4) as usize, cx.r.range(1, 3) as usize);
    let mut g = match boot(cx, t, c, 80)? {
        Some(g) => g,
        None => return Ok(()),
    };
    let mut changed = false;
    for _ in 0..24 {
        match cx.r.below(8) {
            0 | 1 => {
                let a = [g.any(&mut cx.r, 4), g.any(&mut cx.r, 4)];
                if !g.pairs.iter().any(|p| collide(&p.a, &a)) {
                    g.create(cx, a, [false; 2])?;
                }
            }
            2 => changed |= g.reconsider(cx),
            3 => {
                let d = cx.r.pick(&g.denoms);
                g.fund(&d)?;
                let (o, dec) = (g.owner, cx.r.below(256) as u8);
                g.register(cx, o, &d, dec)?;
                changed = true;
            }
            4 => g.update(cx)?,
            _ => {
                let v = |g: &Reg| -> Vec<Result<Value, String>> {
                    g.pairs.iter().flat_map(|p| [g.w.ask(&p.contract, &json!({"pair": {}})), g.w.ask(&p.contract, &json!({"pool": {}}))]).collect()
                };
                let before = v(&g);
                g.migrate(cx)?;
                let after = v(&g);
                if before != after {
                    return Err(format!("the pools stated {before:?} before a migration and {after:?} after it"));
                }
                if changed {
                    cx.count("migrations after tokens or the registry changed their decimals");
                }
            }
        }
    }
    for i in 0..g.pairs.len() {
        g.look(cx, i)?;
    }
    Ok(())
}

/// P20
pub fn listing(cx: &mut Cx) -> V {
    let (t, c) = (cx.r.range(2, 6) as usize, cx.r.range(1, 7) as usize);
    let mut g = match boot(cx, t, c, 100)? {
        Some(g) => g,
        None => return Ok(()),
    };
    let all: Vec<A> = g.denoms.iter().map(|d| A::Coin(d.clone())).chain(g.tokens.keys().map(|t| A::Token(t.clone()))).collect();
    let mut combos = vec![];
    for i in 0..all.len() {
        for j in 0..i {
            combos.push([all[i].clone(), all[j].clone()]);
        }
    }
    cx.r.shuffle(&mut combos);
    let n = match cx.r.below(4) {
        0 => cx.r.range(0, 9),
        1 => cx.r.range(10, 12),
        2 => cx.r.range(29, 33),
        _ => 100,
    } as usize;
    for mut a in combos {
        if g.pairs.len() >= n {
            break;
        }
        if g.pairs.iter().any(|p| collide(&p.a, &a)) {
            continue;
        }
        if cx.r.chance(1, 2) {
            a.swap(0, 1);
        }
        g.create(cx, a, [false; 2])?;
    }
    let order = g.walk(cx, Some(30))?;
    for l in [None, Some(1), Some(2), Some(7), Some(10), Some(29), Some(31), Some(100), Some(u32::MAX as u64)] {
        if cx.r.chance(1, 3) && l.is_some() {
            continue;
        }
        let o = g.walk(cx, l)?;
        if o.iter().zip(&order).any(|(a, b)| a != b) {
            return Err(format!("pages of {l:?} list the pools in another order"));
        }
        cx.count("complete walks");
        cx.distinct(&format!("{l:?}{}{:?}", g.pairs.len(), g.pairs.iter().map(|p| p.a.clone()).collect::<Vec<_>>()));
    }
    cx.sample(|| format!("{} pools listed in pages of 30, 10, ...: {:?} ...", g.pairs.len(), g.pairs.first().map(|p| p.a.clone())));
    if !g.pages(Some(0), None)?.is_empty() {
        return Err("a page of none has pools".into());
    }
    // from anywhere, also from a pool that does not exist
    for _ in 0..6 {
        let a = [g.any(&mut cx.r, 0), g.any(&mut cx.r, 0)];
        if g.pairs.iter().any(|p| collide(&p.a, &a)) {
            continue;
        }
        cx.eval();
        let page = g.pages(Some(30), Some(&a))?;
        let ix: Vec<Option<usize>> = page.iter().map(|v| order.iter().position(|i| g.pairs[*i].record == *v)).collect();
        if ix.iter().any(|i| i.is_none()) || ix.windows(2).any(|w| w[0].unwrap() + 1 != w[1].unwrap()) {
            return Err(format!("the page after {a:?} is no stretch of the listing"));
        }
        let end = ix.last().map_or(order.len(), |i| i.unwrap() + 1);
        if page.len() < 30 && end != order.len() {
            return Err(format!("the page after {a:?} stops before the end"));
        }
        if let Some(p) = g.pairs.iter().position(|p| (p.a[0] == a[0] && p.a[1] == a[1]) || (p.a[0] == a[1] && p.a[1] == a[0])) {
            let at = order.iter().position(|i| *i == p).unwrap();
            let first = ix.first().map_or(order.len(), |i| i.unwrap());
            if first != at + 1 {
                return Err(format!("the page after {a:?} does not start behind it"));
            }
        }
    }
    Ok(())
}

/// P21
pub fn decimals(cx: &mut Cx) -> V {
    let (t, c) = (cx.r.range(1, 4) as usize, cx.r.range(2, 6) as usize);
    let mut g = match boot(cx, t, c, 30)? {
        Some(g) => g,
        None => return Ok(()),
    };
    for _ in 0..30 {
        match cx.r.below(10) {
            0..=3 => {
                let d = cx.r.pick(&g.denoms);
                if cx.r.chance(1, 3) {
                    g.fund(&d)?;
                } else if cx.r.chance(1, 4) {
                    g.drain(&d)?;
                    cx.count("coins taken from the factory");
                }
                let who = if cx.r.chance(3, 4) { g.owner } else { cx.r.idx(g.w.users) };
                let dec = if cx.r.chance(1, 2) { cx.r.pick(&[0u8, 6, 18, 255]) } else { cx.r.below(256) as u8 };
                g.register(cx, who, &d, dec)?;
                cx.distinct(&format!("{d}{dec}{who}"));
            }
            4..=7 => {
                let a = [g.any(&mut cx.r, 6), g.any(&mut cx.r, 6)];
                if !g.pairs.iter().any(|p| collide(&p.a, &a)) {
                    g.create(cx, a, [false; 2])?;
                }
            }
            8 => {
                g.reconsider(cx);
            }
            _ => {
                if !g.pairs.is_empty() {
                    let i = cx.r.idx(g.pairs.len());
                    g.look(cx, i)?;
                }
            }
        }
    }
    for i in 0..g.pairs.len() {
        g.look(cx, i)?;
    }
    for (d, n) in &g.coins {
        let v = g.ask(&json!({"native_token_decimals": {"denom": d}}))?;
        if v["decimals"].as_u64() != Some(*n as u64) {
            return Err(format!("the registry states {v} for {d} instead of {n}"));
        }
    }
    let _ = num(&Value::Null);
    Ok(())
}
