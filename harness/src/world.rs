//! The deployed system under observation: factory, router, pools, tokens and a bank on a multi-contract
//! chain simulator, with hooks on every message, every query and every write.
use anyhow::{bail, Result as AnyResult};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, Coin, CosmosMsg, CustomQuery, Empty, Event,
    Order, Querier, QueryRequest, Record, Storage, Uint128, WasmMsg, WasmQuery,
};
use cw_multi_test::{
    App, AppBuilder, AppResponse, Bank, BankKeeper, BankSudo, Contract, ContractWrapper,
    CosmosRouter, Executor, FailingModule, Module, Wasm, WasmKeeper,
};
use schemars::JsonSchema;
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ---------------------------------------------------------------- storage that can be forked

#[derive(Default)]
pub struct Store {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    touched: BTreeSet<String>,
    writes: u64,
}
#[derive(Clone, Default)]
pub struct SharedStore(Rc<RefCell<Store>>);

/// which module or contract a root key belongs to
fn owner_of(key: &[u8]) -> String {
    fn part(k: &[u8]) -> Option<(&[u8], &[u8])> {
        if k.len() < 2 {
            return None;
        }
        let n = (k[0] as usize) << 8 | k[1] as usize;
        if k.len() < 2 + n {
            return None;
        }
        Some((&k[2..2 + n], &k[2 + n..]))
    }
    match part(key) {
        Some((b"bank", _)) => "bank".into(),
        Some((b"wasm", rest)) => match part(rest) {
            Some((p, _)) if p.starts_with(b"contract_data/") => {
                String::from_utf8_lossy(&p[14..]).into_owned()
            }
            _ => "wasm".into(),
        },
        _ => "other".into(),
    }
}

impl Store {
    fn note(&mut self, key: &[u8]) {
        self.writes += 1;
        let o = owner_of(key);
        if !self.touched.contains(&o) {
            self.touched.insert(o);
        }
    }
}
impl Storage for SharedStore {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.borrow().map.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        let mut s = self.0.borrow_mut();
        s.note(key);
        s.map.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        let mut s = self.0.borrow_mut();
        s.note(key);
        s.map.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        let s = self.0.borrow();
        if let (Some(a), Some(b)) = (start, end) {
            if a > b {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Unbounded, |v| Included(v.to_vec()));
        let hi = end.map_or(Unbounded, |v| Excluded(v.to_vec()));
        let mut v: Vec<Record> = s
            .map
            .range((lo, hi))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if matches!(order, Order::Descending) {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

// ---------------------------------------------------------------- hooks

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// the k-th message fails before it does anything
    MsgBefore(usize),
    /// the k-th message fails after it did everything
    MsgAfter(usize),
    /// the k-th query made by a contract fails
    Query(usize),
}

/// One token transfer-with-notification to a pool, sampled at the chain level just before and after.
#[derive(Clone, Debug)]
pub struct Hop {
    pub pair: usize,
    pub token: String,
    pub amount: u128,
    pub hook: String,
    pub sender: String,
    pub before: [u128; 3], // reserves and share supply
    pub after: [u128; 3],
    pub ok: bool,
}

#[derive(Default)]
pub struct Hooks {
    pub in_exec: bool,
    pub msgs: usize,
    pub queries: usize,
    pub fault: Option<Fault>,
    pub fired: bool,
    pub depth: usize,
    pub trace: Vec<String>,
    pub watch: HashMap<String, (usize, [Value; 2], String)>,
    pub hops: Vec<Hop>,
    pub sample_hops: bool,
    pub quiet: bool,
}
pub type HooksRef = Rc<RefCell<Hooks>>;

impl Hooks {
    fn enter(&mut self, what: impl FnOnce() -> String) -> AnyResult<usize> {
        let k = self.msgs;
        self.msgs += 1;
        if !self.quiet {
            let d = self.depth;
            self.trace.push(format!("{}{}", "  ".repeat(d), what()));
        }
        self.depth += 1;
        if self.fault == Some(Fault::MsgBefore(k)) {
            self.fired = true;
            self.depth -= 1;
            bail!("injected failure before message {k}");
        }
        Ok(k)
    }
    fn leave(&mut self, k: usize) -> AnyResult<()> {
        self.depth -= 1;
        if self.fault == Some(Fault::MsgAfter(k)) {
            self.fired = true;
            bail!("injected failure after message {k}");
        }
        Ok(())
    }
    fn query(&mut self) -> AnyResult<()> {
        if self.in_exec {
            let k = self.queries;
            self.queries += 1;
            if self.fault == Some(Fault::Query(k)) {
                self.fired = true;
                bail!("injected failure of query {k}");
            }
        }
        Ok(())
    }
}

pub struct WasmW {
    inner: WasmKeeper<Empty, Empty>,
    hooks: HooksRef,
}

fn low(s: &str) -> String {
    // bech32 accepts one address in two spellings
    if s.chars().any(|c| c.is_ascii_uppercase()) {
        s.to_lowercase()
    } else {
        s.to_string()
    }
}

fn short(msg: &[u8]) -> String {
    let t = String::from_utf8_lossy(msg);
    if t.len() > 260 {
        let mut e = 260;
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &t[..e])
    } else {
        t.into_owned()
    }
}

impl WasmW {
    fn sample(
        &self,
        api: &dyn Api,
        storage: &dyn Storage,
        router: &dyn CosmosRouter<ExecC = Empty, QueryC = Empty>,
        block: &BlockInfo,
        pair: &str,
    ) -> [u128; 3] {
        let (infos, lp) = {
            let h = self.hooks.borrow();
            let w = &h.watch[pair];
            (w.1.clone(), w.2.clone())
        };
        let was = std::mem::replace(&mut self.hooks.borrow_mut().in_exec, false);
        let ask = |req: QueryRequest<Empty>| -> Value {
            router
                .query(api, storage, block, req)
                .ok()
                .and_then(|b| serde_json::from_slice(b.as_slice()).ok())
                .unwrap_or(Value::Null)
        };
        let mut out = [0u128; 3];
        for i in 0..2 {
            out[i] = if let Some(d) = infos[i]["native_token"]["denom"].as_str() {
                num(&ask(QueryRequest::Bank(BankQuery::Balance {
                    address: pair.into(),
                    denom: d.into(),
                }))["amount"]["amount"])
            } else {
                let t = infos[i]["token"]["contract_addr"].as_str().unwrap();
                num(&ask(QueryRequest::Wasm(WasmQuery::Smart {
                    contract_addr: t.into(),
                    msg: bin(&json!({"balance": {"address": pair}})),
                }))["balance"])
            };
        }
        out[2] = num(&ask(QueryRequest::Wasm(WasmQuery::Smart {
            contract_addr: lp,
            msg: bin(&json!({"token_info": {}})),
        }))["total_supply"]);
        self.hooks.borrow_mut().in_exec = was;
        out
    }
}

impl Wasm<Empty, Empty> for WasmW {
    fn query(
        &self,
        api: &dyn Api,
        storage: &dyn Storage,
        querier: &dyn Querier,
        block: &BlockInfo,
        request: WasmQuery,
    ) -> AnyResult<Binary> {
        self.hooks.borrow_mut().query()?;
        let request = match request {
            WasmQuery::Smart { contract_addr, msg } => WasmQuery::Smart {
                contract_addr: low(&contract_addr),
                msg,
            },
            r => r,
        };
        self.inner.query(api, storage, querier, block, request)
    }
    fn execute(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = Empty, QueryC = Empty>,
        block: &BlockInfo,
        sender: Addr,
        msg: WasmMsg,
    ) -> AnyResult<AppResponse> {
        let msg = match msg {
            WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            } => WasmMsg::Execute {
                contract_addr: low(&contract_addr),
                msg,
                funds,
            },
            m => m,
        };
        let k = self.hooks.borrow_mut().enter(|| match &msg {
            WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            } => format!("{sender} -> {contract_addr} {} funds {:?}", short(msg), funds.iter().map(|c| c.to_string()).collect::<Vec<_>>()),
            WasmMsg::Instantiate { code_id, msg, .. } => {
                format!("{sender} instantiates code {code_id} {}", short(msg))
            }
            m => format!("{sender} {m:?}"),
        })?;
        // sample the pool around a notified transfer to it
        let mut hop = None;
        if self.hooks.borrow().sample_hops {
            if let WasmMsg::Execute { contract_addr, msg, .. } = &msg {
                if let Ok(v) = serde_json::from_slice::<Value>(msg.as_slice()) {
                    let body = if v["send"].is_object() {
                        Some(&v["send"])
                    } else if v["send_from"].is_object() {
                        Some(&v["send_from"])
                    } else {
                        None
                    };
                    if let Some(b) = body {
                        let target = b["contract"].as_str().unwrap_or("").to_string();
                        let known = self.hooks.borrow().watch.get(&target).map(|w| w.0);
                        if let Some(pair) = known {
                            let hook = b["msg"]
                                .as_str()
                                .and_then(|s| Binary::from_base64(s).ok())
                                .map(|b| String::from_utf8_lossy(&b).into_owned())
                                .unwrap_or_default();
                            hop = Some((
                                target.clone(),
                                Hop {
                                    pair,
                                    token: contract_addr.clone(),
                                    amount: num(&b["amount"]),
                                    hook,
                                    sender: sender.to_string(),
                                    before: self.sample(api, storage, router, block, &target),
                                    after: [0; 3],
                                    ok: false,
                                },
                            ));
                        }
                    }
                }
            }
        }
        let res = self
            .inner
            .execute(api, storage, router, block, sender, msg);
        if let Some((target, mut h)) = hop {
            h.ok = res.is_ok();
            if h.ok {
                h.after = self.sample(api, storage, router, block, &target);
            }
            self.hooks.borrow_mut().hops.push(h);
        }
        self.hooks.borrow_mut().leave(k)?;
        res
    }
    fn sudo(
        &self,
        api: &dyn Api,
        contract_addr: Addr,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = Empty, QueryC = Empty>,
        block: &BlockInfo,
        msg: Binary,
    ) -> AnyResult<AppResponse> {
        self.inner
            .sudo(api, contract_addr, storage, router, block, msg)
    }
}

pub struct BankW {
    inner: BankKeeper,
    hooks: HooksRef,
}
impl Module for BankW {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: std::fmt::Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let k = self
            .hooks
            .borrow_mut()
            .enter(|| format!("{sender} bank {msg:?}"))?;
        let msg = match msg {
            BankMsg::Send { to_address, amount } => BankMsg::Send {
                to_address: low(&to_address),
                amount,
            },
            m => m,
        };
        let res = self.inner.execute(api, storage, router, block, sender, msg);
        self.hooks.borrow_mut().leave(k)?;
        res
    }
    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: std::fmt::Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.inner.sudo(api, storage, router, block, msg)
    }
    fn query(
        &self,
        api: &dyn Api,
        storage: &dyn Storage,
        querier: &dyn Querier,
        block: &BlockInfo,
        request: BankQuery,
    ) -> AnyResult<Binary> {
        self.hooks.borrow_mut().query()?;
        self.inner.query(api, storage, querier, block, request)
    }
}
impl Bank for BankW {}

type TApp = App<BankW, MockApi, SharedStore, FailingModule<Empty, Empty, Empty>, WasmW>;

// ---------------------------------------------------------------- contracts

macro_rules! contracts {
    ($m:ident, $token:path, $pair:path, $factory:path, $router:path) => {
        mod $m {
            use super::{Contract, ContractWrapper, Empty};
            pub fn token() -> Box<dyn Contract<Empty>> {
                use $token as c;
                Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
            }
            pub fn pair() -> Box<dyn Contract<Empty>> {
                use $pair as c;
                Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply).with_migrate(c::migrate))
            }
            pub fn factory() -> Box<dyn Contract<Empty>> {
                use $factory as c;
                Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply).with_migrate(c::migrate))
            }
            pub fn router() -> Box<dyn Contract<Empty>> {
                use $router as c;
                Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_migrate(c::migrate))
            }
        }
    };
}
contracts!(now, halo_token::contract, halo_pair::contract, halo_factory::contract, halo_router::contract);
#[cfg(not(feature = "upgrade"))]
use now as first;
// what is deployed at first: the release that upgrades start from
#[cfg(feature = "upgrade")]
contracts!(first, released::token::contract, released::pair::contract, released::factory::contract, released::router::contract);

pub const CODE_TOKEN: u64 = 1;
pub const CODE_PAIR: u64 = 2;
pub const CODE_PAIR2: u64 = 3;
pub const CODE_FACTORY: u64 = 4;
pub const CODE_ROUTER: u64 = 5;
pub const CODE_EVIL: u64 = 6;
pub const CODE_TOKEN2: u64 = 7;
// the current code (the same as above, unless upgrades are watched)
#[cfg(feature = "upgrade")]
pub const NOW_PAIR: u64 = 8;
#[cfg(feature = "upgrade")]
pub const NOW_FACTORY: u64 = 9;
#[cfg(feature = "upgrade")]
pub const NOW_ROUTER: u64 = 10;
#[cfg(feature = "upgrade")]
pub const NOW_TOKEN: u64 = 11;

// ---------------------------------------------------------------- helpers

pub fn bin(v: &Value) -> Binary {
    Binary::from(serde_json::to_vec(v).unwrap())
}
pub fn num(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or(0)
}
/// 18-digit fixed point as the decimal text the messages carry
pub fn dec_text(atomics: u128) -> String {
    format!(
        "{}.{:018}",
        atomics / crate::big::E18,
        atomics % crate::big::E18
    )
}

// ---------------------------------------------------------------- world

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Native,
    Cw20,
}
#[derive(Clone, Debug)]
pub struct AssetRec {
    pub kind: Kind,
    pub name: String, // denom or contract address
    pub decimals: u8,
    pub evil: bool,
    pub lp_of: Option<usize>,
    pub minter: Option<usize>,
    pub cap: Option<u128>,
}
#[derive(Clone, Debug)]
pub struct PairRec {
    pub acct: usize,
    pub a: [usize; 2],
    pub lp: usize,
    pub dec: [u8; 2],
    pub whitelist: Vec<usize>,
    pub mins: [u128; 2],
    pub evil: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Snap {
    pub bal: Vec<Vec<u128>>, // [asset][account]
    pub supply: Vec<u128>,
}

pub struct ExecOut {
    pub res: Result<Vec<Event>, String>,
    pub touched: BTreeSet<String>,
    pub writes: u64,
    pub hops: Vec<Hop>,
    pub msgs: usize,
    pub queries: usize,
    pub panicked: bool,
    pub trace: Vec<String>,
    pub fired: bool,
}
impl ExecOut {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn events(&self) -> &[Event] {
        match &self.res {
            Ok(e) => e,
            Err(_) => &[],
        }
    }
    /// attributes of the events that `contract` itself emitted, as one map per event
    pub fn attrs(&self, contract: &str, action: &str) -> Vec<HashMap<String, String>> {
        self.events()
            .iter()
            .filter(|e| e.ty == "wasm")
            .map(|e| {
                e.attributes
                    .iter()
                    .map(|a| (a.key.clone(), a.value.clone()))
                    .collect::<HashMap<_, _>>()
            })
            .filter(|m| {
                m.get("_contract_addr").map(|s| s.as_str()) == Some(contract)
                    && m.get("action").map(|s| s.as_str()) == Some(action)
            })
            .collect()
    }
    pub fn err(&self) -> &str {
        match &self.res {
            Ok(_) => "",
            Err(e) => e,
        }
    }
}

pub struct Fork {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    block: BlockInfo,
    snap: Snap,
    n: (usize, usize, usize, usize),
}

pub struct World {
    pub app: TApp,
    store: SharedStore,
    pub hooks: HooksRef,
    pub accts: Vec<String>,
    pub ix: HashMap<String, usize>,
    pub users: usize, // accounts 0..users are people
    pub assets: Vec<AssetRec>,
    pub pairs: Vec<PairRec>,
    pub contracts: usize,
    pub factory: usize,
    pub router: usize,
    pub owner: usize,
    pub snap: Snap,
    /// keep the last message sent to a contract
    pub keep: bool,
    pub last: Option<(usize, String, Value, Vec<Coin>)>,
}

pub const USERS: [&str; 8] = [
    "aura1alice0000000000000000000000000000000aa",
    "aura1bob000000000000000000000000000000000bb",
    "aura1carol000000000000000000000000000000cc0",
    "aura1dave0000000000000000000000000000000dd0",
    "aura1erin0000000000000000000000000000000ee0",
    "aura1frank000000000000000000000000000000ff0",
    "aura1grace0000000000000000000000000000gg000",
    "aura1owner0000000000000000000000000000ow000",
];

impl World {
    /// Users, the factory and the router; natives as (denom, amount of every user).
    pub fn new(natives: &[(String, u128)]) -> World {
        let hooks: HooksRef = Rc::new(RefCell::new(Hooks::default()));
        let mut keeper = WasmKeeper::<Empty, Empty>::new();
        for c in [
            first::token(),
            first::pair(),
            first::pair(),
            first::factory(),
            first::router(),
            crate::evil::contract(),
            first::token(),
            now::pair(),
            now::factory(),
            now::router(),
            now::token(),
        ] {
            keeper.store_code(c);
        }
        let store = SharedStore::default();
        let app: TApp = AppBuilder::new()
            .with_storage(store.clone())
            .with_bank(BankW {
                inner: BankKeeper::new(),
                hooks: hooks.clone(),
            })
            .with_wasm::<FailingModule<Empty, Empty, Empty>, WasmW>(WasmW {
                inner: keeper,
                hooks: hooks.clone(),
            })
            .build(|router, _, storage| {
                for u in USERS {
                    let coins: Vec<Coin> = natives
                        .iter()
                        .filter(|(_, n)| *n > 0)
                        .map(|(d, n)| Coin {
                            denom: d.clone(),
                            amount: Uint128::new(*n),
                        })
                        .collect();
                    router
                        .bank
                        .inner
                        .init_balance(storage, &Addr::unchecked(u), coins)
                        .unwrap();
                }
            });
        let mut w = World {
            app,
            store,
            hooks,
            accts: vec![],
            ix: HashMap::new(),
            users: USERS.len(),
            assets: vec![],
            pairs: vec![],
            contracts: 0,
            factory: 0,
            router: 0,
            owner: USERS.len() - 1,
            snap: Snap::default(),
            keep: false,
            last: None,
        };
        for u in USERS {
            w.add_acct(u);
        }
        for (d, _) in natives {
            w.assets.push(AssetRec {
                kind: Kind::Native,
                name: d.clone(),
                decimals: 0,
                evil: false,
                lp_of: None,
                minter: None,
                cap: None,
            });
        }
        w
    }
    pub fn add_acct(&mut self, a: &str) -> usize {
        if let Some(i) = self.ix.get(a) {
            return *i;
        }
        let i = self.accts.len();
        self.accts.push(a.to_string());
        self.ix.insert(a.to_string(), i);
        i
    }
    pub fn addr(&self, i: usize) -> Addr {
        Addr::unchecked(self.accts[i].clone())
    }
    pub fn instantiate(&mut self, who: usize, code: u64, msg: &Value, admin: Option<usize>) -> Result<usize, String> {
        let out = self.exec_raw(
            who,
            CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin: admin.map(|a| self.accts[a].clone()),
                code_id: code,
                msg: bin(msg),
                funds: vec![],
                label: "x".into(),
            }),
        );
        match out.res {
            Ok(_) => {
                let a = format!("contract{}", self.contracts);
                self.contracts += 1;
                Ok(self.add_acct(&a))
            }
            Err(e) => Err(e),
        }
    }
    /// factory (owned by `owner`) and router
    pub fn deploy(&mut self) -> Result<(), String> {
        let owner = self.owner;
        self.factory = self
            .instantiate(
                owner,
                CODE_FACTORY,
                &json!({"pair_code_id": CODE_PAIR, "token_code_id": CODE_TOKEN}),
                Some(owner),
            )
            ?;
        let f = self.accts[self.factory].clone();
        self.router = self
            .instantiate(owner, CODE_ROUTER, &json!({ "halo_factory": f }), Some(owner))
            ?;
        Ok(())
    }
    /// an honest token; every user gets `each`
    pub fn token(&mut self, decimals: u8, each: u128, minter: Option<usize>, cap: Option<u128>) -> Result<usize, String> {
        let bals: Vec<Value> = (0..self.users)
            .filter(|_| each > 0)
            .map(|u| json!({"address": self.accts[u], "amount": each.to_string()}))
            .collect();
        let mint = match minter {
            Some(m) => json!({"minter": self.accts[m], "cap": cap.map(|c| c.to_string())}),
            None => Value::Null,
        };
        let owner = self.owner;
        let a = self.instantiate(
            owner,
            CODE_TOKEN,
            &json!({"name": "token", "symbol": "TKN", "decimals": decimals, "initial_balances": bals, "mint": mint}),
            None,
        )?;
        self.assets.push(AssetRec {
            kind: Kind::Cw20,
            name: self.accts[a].clone(),
            decimals,
            evil: false,
            lp_of: None,
            minter,
            cap,
        });
        Ok(self.assets.len() - 1)
    }
    pub fn info(&self, asset: usize) -> Value {
        let a = &self.assets[asset];
        match a.kind {
            Kind::Native => json!({"native_token": {"denom": a.name}}),
            Kind::Cw20 => json!({"token": {"contract_addr": a.name}}),
        }
    }
    pub fn asset(&self, asset: usize, amount: u128) -> Value {
        json!({"info": self.info(asset), "amount": amount.to_string()})
    }
    pub fn is_native(&self, a: usize) -> bool {
        self.assets[a].kind == Kind::Native
    }
    /// make the factory accept a native coin
    pub fn register_native(&mut self, asset: usize, decimals: u8) -> Result<(), String> {
        let denom = self.assets[asset].name.clone();
        let f = self.accts[self.factory].clone();
        let o = self.owner;
        let has = self.native_balance(&f, &denom);
        if has == 0 {
            self.exec_raw(
                o,
                CosmosMsg::Bank(BankMsg::Send {
                    to_address: f.clone(),
                    amount: vec![Coin {
                        denom: denom.clone(),
                        amount: Uint128::new([1u128, 2, 7][(self.height() % 3) as usize]),
                    }],
                }),
            )
            .res?;
        }
        self.exec(o, &f, &json!({"add_native_token_decimals": {"denom": denom, "decimals": decimals}}), &[])
            .res?;
        self.assets[asset].decimals = decimals;
        Ok(())
    }
    /// whitelist entries from 1000 on are accounts nobody uses, from 2000 on no addresses at all, from
    /// 3000 on contracts by number
    pub fn wl_name(&self, u: usize) -> String {
        if u >= 3000 {
            format!("contract{}", u - 3000)
        } else if u >= 2000 {
            crate::gen::ODD_NAMES[u - 2000].into()
        } else if u >= 1000 {
            format!("aura1filler{:030}", u - 1000)
        } else {
            self.accts[u].clone()
        }
    }
    pub fn create_pair_msg(&self, a: [usize; 2], whitelist: &[usize], mins: [u128; 2]) -> Value {
        json!({"create_pair": {"asset_infos": [self.info(a[0]), self.info(a[1])],
            "requirements": {"whitelist": whitelist.iter().map(|u| self.wl_name(*u)).collect::<Vec<_>>(),
            "first_asset_minimum": mins[0].to_string(), "second_asset_minimum": mins[1].to_string()}}})
    }
    pub fn create_pair(
        &mut self,
        who: usize,
        a: [usize; 2],
        whitelist: Vec<usize>,
        mins: [u128; 2],
    ) -> Result<usize, String> {
        let msg = self.create_pair_msg(a, &whitelist, mins);
        let f = self.accts[self.factory].clone();
        self.exec(who, &f, &msg, &[]).res?;
        Ok(self.adopt_pair(a, whitelist, mins))
    }
    /// record the pool that the last accepted creation made (pool and share token are the two next
    /// contracts of the chain)
    pub fn adopt_pair(&mut self, a: [usize; 2], whitelist: Vec<usize>, mins: [u128; 2]) -> usize {
        let pa = format!("contract{}", self.contracts);
        let la = format!("contract{}", self.contracts + 1);
        self.contracts += 2;
        let acct = self.add_acct(&pa);
        self.add_acct(&la);
        let id = self.pairs.len();
        self.assets.push(AssetRec {
            kind: Kind::Cw20,
            name: la.clone(),
            decimals: 6,
            evil: false,
            lp_of: Some(id),
            minter: Some(acct),
            cap: None,
        });
        let evil = self.assets[a[0]].evil || self.assets[a[1]].evil;
        self.pairs.push(PairRec {
            acct,
            a,
            lp: self.assets.len() - 1,
            dec: [self.assets[a[0]].decimals, self.assets[a[1]].decimals],
            whitelist,
            mins,
            evil,
        });
        let infos = [self.info(a[0]), self.info(a[1])];
        self.hooks.borrow_mut().watch.insert(pa, (id, infos, la));
        id
    }

    // ------------------------------------------------------------ running

    pub fn exec(&mut self, who: usize, contract: &str, msg: &Value, funds: &[(usize, u128)]) -> ExecOut {
        let funds: Vec<Coin> = funds
            .iter()
            .map(|(a, n)| Coin {
                denom: self.assets[*a].name.clone(),
                amount: Uint128::new(*n),
            })
            .collect();
        if self.keep {
            self.last = Some((who, contract.to_string(), msg.clone(), funds.clone()));
        }
        self.exec_raw(
            who,
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract.to_string(),
                msg: bin(msg),
                funds,
            }),
        )
    }
    pub fn exec_raw(&mut self, who: usize, msg: CosmosMsg) -> ExecOut {
        {
            let mut h = self.hooks.borrow_mut();
            h.in_exec = true;
            h.msgs = 0;
            h.queries = 0;
            h.depth = 0;
            h.fired = false;
            h.trace.clear();
            h.hops.clear();
            let mut s = self.store.0.borrow_mut();
            s.touched.clear();
            s.writes = 0;
        }
        let sender = self.addr(who);
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| app.execute(sender, msg)));
        let mut h = self.hooks.borrow_mut();
        h.in_exec = false;
        h.fault = None;
        h.depth = 0;
        let (res, panicked) = match r {
            Ok(Ok(a)) => (Ok(a.events), false),
            Ok(Err(e)) => (Err(format!("{}", e.root_cause())), false),
            Err(p) => (
                Err(format!(
                    "panic: {}",
                    p.downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default()
                )),
                true,
            ),
        };
        let mut s = self.store.0.borrow_mut();
        ExecOut {
            res,
            touched: std::mem::take(&mut s.touched),
            writes: s.writes,
            hops: std::mem::take(&mut h.hops),
            msgs: h.msgs,
            queries: h.queries,
            panicked,
            trace: std::mem::take(&mut h.trace),
            fired: h.fired,
        }
    }
    /// a query of a contract; None if it failed (or panicked)
    pub fn ask(&self, contract: &str, msg: &Value) -> Result<Value, String> {
        let q = QueryRequest::<Empty>::Wasm(WasmQuery::Smart {
            contract_addr: contract.to_string(),
            msg: bin(msg),
        });
        self.ask_raw(&q)
    }
    pub fn ask_raw(&self, q: &QueryRequest<Empty>) -> Result<Value, String> {
        let raw = cosmwasm_std::to_vec(q).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| self.app.raw_query(&raw)));
        match r {
            Err(_) => Err("panic".into()),
            Ok(cosmwasm_std::SystemResult::Err(e)) => Err(format!("{e}")),
            Ok(cosmwasm_std::SystemResult::Ok(cosmwasm_std::ContractResult::Err(e))) => Err(e),
            Ok(cosmwasm_std::SystemResult::Ok(cosmwasm_std::ContractResult::Ok(b))) => {
                serde_json::from_slice(b.as_slice()).map_err(|e| format!("unreadable answer: {e}"))
            }
        }
    }
    pub fn native_balance(&self, addr: &str, denom: &str) -> u128 {
        let q = QueryRequest::<Empty>::Bank(BankQuery::Balance {
            address: addr.into(),
            denom: denom.into(),
        });
        self.ask_raw(&q).map(|v| num(&v["amount"]["amount"])).unwrap_or(0)
    }
    pub fn token_balance(&self, token: &str, addr: &str) -> u128 {
        self.ask(token, &json!({"balance": {"address": addr}}))
            .map(|v| num(&v["balance"]))
            .unwrap_or(0)
    }
    pub fn balance(&self, asset: usize, acct: usize) -> u128 {
        let a = &self.assets[asset];
        match a.kind {
            Kind::Native => self.native_balance(&self.accts[acct], &a.name),
            Kind::Cw20 => self.token_balance(&a.name, &self.accts[acct]),
        }
    }
    /// (amount, expires at height; 0 = never) as the token states it
    pub fn allowance(&self, token: usize, owner: usize, spender: usize) -> (u128, u64) {
        match self.ask(
            &self.assets[token].name,
            &json!({"allowance": {"owner": self.accts[owner], "spender": self.accts[spender]}}),
        ) {
            Ok(v) => (num(&v["allowance"]), self.expiry_height(&v["expires"])),
            Err(_) => (0, 0),
        }
    }
    /// an expiry at height `e` (0 = never); every third one is given as the time of that height, which
    /// is the same because time runs evenly here
    pub fn expiry(&self, e: u64) -> Value {
        let b = self.app.block_info();
        match e {
            0 => json!({"never": {}}),
            _ if e % 3 == 0 => {
                let t = b.time.nanos() as i128 + 6_000_000_000 * (e as i128 - b.height as i128);
                json!({"at_time": (t.max(0) as u128).to_string()})
            }
            _ => json!({ "at_height": e }),
        }
    }
    pub fn expiry_height(&self, v: &Value) -> u64 {
        let b = self.app.block_info();
        if let Some(t) = v["at_time"].as_str().and_then(|t| t.parse::<i128>().ok()) {
            return (b.height as i128 + (t - b.time.nanos() as i128) / 6_000_000_000) as u64;
        }
        v["at_height"].as_u64().unwrap_or(0)
    }
    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    /// the chain's age when the deployment starts
    pub fn start(&mut self, r: &mut crate::rng::Rng) {
        let (h, t) = (r.log(40) as u64, r.log(31) as u64);
        self.app.update_block(|b| {
            b.height = 1 + h;
            b.time = b.time.plus_seconds(t);
        });
    }
    pub fn advance(&mut self, blocks: u64) {
        self.app.update_block(|b| {
            b.height += blocks;
            b.time = b.time.plus_seconds(6 * blocks);
        });
    }

    // ------------------------------------------------------------ observing

    /// the whole balance sheet, by public queries
    pub fn observe(&mut self) {
        let all: Vec<usize> = (0..self.assets.len()).collect();
        self.observe_assets(&all);
    }
    /// only what the last transaction wrote to
    pub fn observe_touched(&mut self, touched: &BTreeSet<String>) {
        let v: Vec<usize> = (0..self.assets.len())
            .filter(|i| match self.assets[*i].kind {
                Kind::Native => touched.contains("bank"),
                Kind::Cw20 => touched.contains(&self.assets[*i].name) || self.assets[*i].evil,
            })
            .collect();
        self.observe_assets(&v);
    }
    fn observe_assets(&mut self, which: &[usize]) {
        let (na, nc) = (self.assets.len(), self.accts.len());
        let mut s = std::mem::take(&mut self.snap);
        s.bal.resize(na, vec![]);
        s.supply.resize(na, 0);
        for v in s.bal.iter_mut() {
            v.resize(nc, 0);
        }
        let mut bank: Option<Vec<HashMap<String, u128>>> = None;
        for &a in which {
            match self.assets[a].kind {
                Kind::Native => {
                    let b = bank.get_or_insert_with(|| {
                        self.accts
                            .iter()
                            .map(|c| {
                                let q = QueryRequest::<Empty>::Bank(BankQuery::AllBalances { address: c.clone() });
                                let v = self.ask_raw(&q).unwrap_or(Value::Null);
                                v["amount"]
                                    .as_array()
                                    .map(|l| {
                                        l.iter()
                                            .map(|c| (c["denom"].as_str().unwrap_or("").to_string(), num(&c["amount"])))
                                            .collect()
                                    })
                                    .unwrap_or_default()
                            })
                            .collect()
                    });
                    let name = &self.assets[a].name;
                    let mut t = 0u128;
                    for c in 0..nc {
                        s.bal[a][c] = b[c].get(name).copied().unwrap_or(0);
                        t = t.saturating_add(s.bal[a][c]);
                    }
                    s.supply[a] = t;
                }
                Kind::Cw20 => {
                    for c in 0..nc {
                        s.bal[a][c] = self.token_balance(&self.assets[a].name, &self.accts[c]);
                    }
                    s.supply[a] = self
                        .ask(&self.assets[a].name, &json!({"token_info": {}}))
                        .map(|v| num(&v["total_supply"]))
                        .unwrap_or(0);
                }
            }
        }
        self.snap = s;
    }
    pub fn fork(&self) -> Fork {
        Fork {
            map: self.store.0.borrow().map.clone(),
            block: self.app.block_info(),
            snap: self.snap.clone(),
            n: (self.accts.len(), self.assets.len(), self.pairs.len(), self.contracts),
        }
    }
    pub fn restore(&mut self, f: &Fork) {
        self.store.0.borrow_mut().map = f.map.clone();
        self.app.set_block(f.block.clone());
        self.snap = f.snap.clone();
        while self.accts.len() > f.n.0 {
            let a = self.accts.pop().unwrap();
            self.ix.remove(&a);
        }
        self.assets.truncate(f.n.1);
        while self.pairs.len() > f.n.2 {
            self.pairs.pop();
        }
        let np = f.n.2;
        self.hooks.borrow_mut().watch.retain(|_, v| v.0 < np);
        self.contracts = f.n.3;
    }
    /// identical states of all contracts and balances (not: when the contracts were made)
    pub fn same_contents(&self, f: &Fork) -> bool {
        let s = self.store.0.borrow();
        let of = |m: &BTreeMap<Vec<u8>, Vec<u8>>| -> Vec<(Vec<u8>, Vec<u8>)> { m.iter().filter(|(k, _)| owner_of(k) != "wasm").map(|(k, v)| (k.clone(), v.clone())).collect() };
        of(&s.map) == of(&f.map)
    }
    /// some other block of some other chain, six seconds a block
    pub fn elsewhen(&mut self, r: &mut crate::rng::Rng) {
        let (n, back, c) = (r.log(30) as u64, r.chance(1, 3), r.below(1000));
        self.app.update_block(|b| {
            if back {
                let n = n.min(b.height - 1).min(b.time.seconds() / 6 - 1);
                b.height -= n;
                b.time = b.time.minus_seconds(6 * n);
            } else {
                b.height += n;
                b.time = b.time.plus_seconds(6 * n);
            }
            b.chain_id = format!("halo-{c}");
        });
    }
    /// identical chain state?
    pub fn same_state(&self, f: &Fork) -> bool {
        self.store.0.borrow().map == f.map
    }
    pub fn state_diff(&self, f: &Fork) -> Vec<String> {
        let s = self.store.0.borrow();
        let mut out = BTreeSet::new();
        for (k, v) in &s.map {
            if f.map.get(k) != Some(v) {
                out.insert(owner_of(k));
            }
        }
        for k in f.map.keys() {
            if !s.map.contains_key(k) {
                out.insert(owner_of(k));
            }
        }
        out.into_iter().collect()
    }
    pub fn pools(&self, s: &Snap, p: usize) -> [u128; 2] {
        let r = &self.pairs[p];
        [s.bal[r.a[0]][r.acct], s.bal[r.a[1]][r.acct]]
    }
    pub fn shares(&self, s: &Snap, p: usize) -> u128 {
        s.supply[self.pairs[p].lp]
    }
    pub fn pair_addr(&self, p: usize) -> String {
        self.accts[self.pairs[p].acct].clone()
    }
}
