//! Histories of random operations over a deployed system, with monitors around every operation.
use crate::big::{big, Big};
use crate::check::{Cx, V};
use crate::gen::{self, Profile};
use crate::sim::{self, Admin, route_shape_ok, swap_calc, Entry, Op, Receipt, Rej, Sim, To, R};
use crate::world::{num, ExecOut, Hop, Snap, World};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Step {
    pub op: Op,
    pub pre: Snap,
    pub pred: R<()>,
    pub want: Snap,
    pub allow: BTreeMap<(usize, usize, usize), (u128, u64)>,
    pub receipts: Vec<Receipt>,
    pub out: ExecOut,
}
impl Step {
    pub fn open(&self) -> bool {
        matches!(self.pred, Err(Rej::Maybe(_)))
    }
}

pub fn step(w: &mut World, op: &Op) -> Step {
    let (pred, want, allow, receipts) = {
        let mut s = Sim::new(w);
        let pred = s.apply(op);
        (pred, s.s, s.allow, s.receipts)
    };
    let mut pre = w.snap.clone();
    let mut want = want;
    let out = sim::run(w, op);
    if let (Op::Admin(x), true) = (op, out.ok()) {
        match x {
            Admin::Decimals { asset, decimals } => w.assets[*asset].decimals = *decimals,
            Admin::NewPool { a, whitelist, mins, .. } => {
                w.adopt_pair(*a, whitelist.clone(), *mins);
                w.observe();
                for s in [&mut pre, &mut want] {
                    s.bal.resize(w.assets.len(), vec![]);
                    s.supply.resize(w.assets.len(), 0);
                    for v in s.bal.iter_mut() {
                        v.resize(w.accts.len(), 0);
                    }
                }
            }
            Admin::Codes { .. } => {}
        }
    }
    w.observe_touched(&out.touched);
    if let (Op::NewMinter { asset, to, .. }, true) = (op, out.ok()) {
        w.assets[*asset].minter = *to;
        if to.is_none() {
            w.assets[*asset].cap = None;
        }
    }
    Step { op: op.clone(), pre, pred, want, allow, receipts, out }
}

/// the first differences between two balance sheets
pub fn sheet_diff(w: &World, got: &Snap, want: &Snap) -> Vec<String> {
    let mut d = vec![];
    for a in 0..w.assets.len() {
        for c in 0..w.accts.len() {
            if got.bal[a][c] != want.bal[a][c] {
                d.push(format!(
                    "{} of {}: {} instead of {}",
                    w.assets[a].name,
                    who(w, c),
                    got.bal[a][c],
                    want.bal[a][c]
                ));
            }
        }
        if got.supply[a] != want.supply[a] {
            d.push(format!("supply of {}: {} instead of {}", w.assets[a].name, got.supply[a], want.supply[a]));
        }
    }
    d
}

pub fn who(w: &World, c: usize) -> String {
    if c == w.router {
        "the router".into()
    } else if c == w.factory {
        "the factory".into()
    } else if let Some(p) = w.pairs.iter().position(|p| p.acct == c) {
        format!("pool {p}")
    } else {
        w.accts[c].clone()
    }
}

/// accepted exactly when the specification accepts, with exactly the specified effect
pub fn agree(w: &World, st: &Step) -> V {
    accept(st)?;
    if st.pred.is_ok() && st.out.ok() {
        let d = sheet_diff(w, &w.snap, &st.want);
        if !d.is_empty() {
            return Err(format!("wrong effect: {}", d.join("; ")));
        }
    }
    unchanged_if_refused(w, st)
}
pub fn accept(st: &Step) -> V {
    match (&st.pred, st.out.ok()) {
        (Ok(()), false) => Err(format!("must be accepted, but was refused: {}", st.out.err())),
        (Err(Rej::No(why)), true) => Err(format!("must be refused ({why}), but was accepted")),
        _ => Ok(()),
    }
}
pub fn unchanged_if_refused(w: &World, st: &Step) -> V {
    if !st.out.ok() && (st.out.writes > 0 || w.snap != st.pre) {
        return Err(format!("refused, but the balance sheet changed: {}", sheet_diff(w, &w.snap, &st.pre).join("; ")));
    }
    Ok(())
}

/// (side, receiver) of a swap seen at a pool
pub fn hop_swap(w: &World, h: &Hop) -> Option<(usize, Option<usize>)> {
    if !h.ok || h.pair >= w.pairs.len() || w.pairs[h.pair].evil {
        return None;
    }
    let v: Value = serde_json::from_str(&h.hook).ok()?;
    let b = v.get("swap")?;
    let side = w.pairs[h.pair].a.iter().position(|a| !w.is_native(*a) && w.assets[*a].name == h.token)?;
    let to = b["to"].as_str().unwrap_or(&h.sender).to_string();
    Some((side, w.ix.get(&to).copied()))
}

pub fn kind(op: &Op) -> &'static str {
    match op {
        Op::Swap { .. } => "swap",
        Op::Provide { .. } => "provide",
        Op::Withdraw { .. } => "withdraw",
        Op::Route { .. } => "route",
        Op::RouterStep { .. } => "router step",
        Op::RouterAssert { .. } => "router assertion",
        Op::Forge { .. } => "forged notification",
        Op::Misdirect { .. } => "misdirected transfer",
        Op::NativeSwap { .. } => "native swap",
        Op::Transfer { .. } => "transfer",
        Op::TransferFrom { .. } => "transfer from",
        Op::Burn { .. } => "burn",
        Op::BurnFrom { .. } => "burn from",
        Op::Mint { .. } => "mint",
        Op::Allow { .. } => "allowance",
        Op::NewMinter { .. } => "new minter",
        Op::Blocks(_) => "blocks",
        Op::Admin(Admin::Decimals { .. }) => "decimals registered",
        Op::Admin(Admin::Codes { .. }) => "codes changed",
        Op::Admin(Admin::NewPool { .. }) => "pool created",
    }
}

pub trait Mon {
    fn profile(&mut self, _: &mut Cx, _: &mut Profile) {}
    fn gen(&mut self, cx: &mut Cx, w: &World, p: &Profile) -> Op {
        gen::op(&mut cx.r, w, p)
    }
    fn hops(&self) -> bool {
        false
    }
    fn start(&mut self, _: &mut Cx, _: &mut World) -> V {
        Ok(())
    }
    fn before(&mut self, _: &mut Cx, _: &mut World, _: &Op) -> V {
        Ok(())
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V;
    fn finish(&mut self, _: &mut Cx, _: &mut World) -> V {
        Ok(())
    }
}

pub fn history<M: Mon>(cx: &mut Cx, mut m: M) -> V {
    let mut p = Profile::default();
    m.profile(cx, &mut p);
    // now and then a whole life of one pool
    let ages = cx.r.chance(1, 240);
    if ages {
        p.max_pairs = 1;
    }
    let mut w = match gen::world(&mut cx.r, &p) {
        Ok(w) => w,
        Err(e) => {
            cx.count("deployments refused");
            cx.note(format!("deployment refused: {e}"));
            return Ok(());
        }
    };
    if w.pairs.is_empty() {
        return Ok(());
    }
    for (i, q) in w.pairs.iter().enumerate() {
        cx.log.push(format!(
            "pool {i}: {} / {} (decimals {:?}), first provision by {:?} of at least {:?}",
            w.assets[q.a[0]].name, w.assets[q.a[1]].name, q.dec, q.whitelist, q.mins
        ));
    }
    m.start(cx, &mut w)?;
    w.hooks.borrow_mut().sample_hops = m.hops();
    let mut todo: Vec<Op> = vec![];
    for i in (0..w.pairs.len()).rev() {
        if cx.r.chance(p.init, 100) {
            // tried until it works
            for _ in 0..3 {
                todo.push(Op::Provide {
                    pair: i,
                    who: usize::MAX,
                    listed: [(0, 0), (0, 0)],
                    tol: None,
                    recv: To::Default,
                    funds: vec![],
                });
            }
        }
    }
    let mut steps = p.steps / 2 + cx.r.below(p.steps) + todo.len() as u64;
    if ages {
        steps *= 30;
        cx.count("histories of a thousand operations and more");
    } else if cx.r.chance(1, 60) {
        // a long life
        steps *= 6;
    }
    let mut calm = p.clone();
    calm.mess = 0;
    calm.tol = 0;
    for _ in 0..steps {
        let op = match todo.pop() {
            Some(Op::Provide { pair, .. }) => {
                if w.shares(&w.snap, pair) > 0 {
                    continue;
                }
                gen::provide(&mut cx.r, &w, &calm, pair)
            }
            _ => m.gen(cx, &w, &p),
        };
        cx.log.push(format!("{op:?}"));
        m.before(cx, &mut w, &op)?;
        let st = step(&mut w, &op);
        cx.log.push(match &st.out.res {
            Ok(_) => "  accepted".into(),
            Err(e) => format!("  refused: {e}"),
        });
        cx.count(kind(&op));
        if st.out.ok() {
            cx.count(match op {
                Op::Swap { .. } => "swap accepted",
                Op::Provide { .. } => "provide accepted",
                Op::Withdraw { .. } => "withdraw accepted",
                Op::Route { .. } => "route accepted",
                _ => "other accepted",
            });
        }
        m.after(cx, &mut w, &st).map_err(|e| format!("{op:?}: {e}"))?;
    }
    m.finish(cx, &mut w)
}

// ---------------------------------------------------------------- P01

pub struct Product;
impl Mon for Product {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.swap = 45;
        p.route = 20;
        p.guard = 10;
    }
    fn hops(&self) -> bool {
        true
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        for h in &st.out.hops {
            if let Some((side, _)) = hop_swap(w, h) {
                cx.eval();
                let k0 = big(h.before[0]).mul(&big(h.before[1]));
                let k1 = big(h.after[0]).mul(&big(h.after[1]));
                if k1 < k0 {
                    return Err(format!("the reserves of pool {} went from {:?} to {:?}: their product fell", h.pair, &h.before[..2], &h.after[..2]));
                }
                if h.before[2] > 0 && h.after[1 - side] < h.before[1 - side] {
                    cx.distinct(&format!("{:?}{}{}", h.before, h.amount, side));
                    cx.count(if st.out.hops.len() > 1 { "hops of routes with a payout" } else { "swaps with a payout" });
                    cx.sample(|| format!("pool {} reserves {:?} offered {} -> {:?}", h.pair, &h.before[..2], h.amount, &h.after[..2]));
                }
            }
        }
        if let Op::NativeSwap { pair, .. } = st.op {
            if st.out.ok() {
                cx.eval();
                let (a, b) = (w.pools(&st.pre, pair), w.pools(&w.snap, pair));
                if big(b[0]).mul(&big(b[1])) < big(a[0]).mul(&big(a[1])) {
                    return Err(format!("the reserves of pool {pair} went from {a:?} to {b:?}: their product fell"));
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P02

pub struct Payout;
impl Mon for Payout {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.swap = 45;
        p.route = 15;
        p.guard = 10;
    }
    fn hops(&self) -> bool {
        true
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        for h in &st.out.hops {
            let (side, rec) = match hop_swap(w, h) {
                Some(x) => x,
                None => continue,
            };
            let (ret, _, comm) = match swap_calc(h.before[side], h.before[1 - side], h.amount) {
                Some(x) => x,
                None => continue,
            };
            cx.eval();
            if h.after[side] != h.before[side] + h.amount {
                return Err(format!("pool {} took {} instead of {}", h.pair, h.after[side] - h.before[side].min(h.after[side]), h.amount));
            }
            let mut want = h.before[1 - side] - ret;
            if rec == Some(w.pairs[h.pair].acct) {
                want = want.saturating_add(ret);
            }
            if h.after[1 - side] != want {
                return Err(format!(
                    "pool {} with reserves {:?} was offered {} of side {side}; it must pay {ret} and keep a fee of {comm}, but its reserve went to {} instead of {want}",
                    h.pair, &h.before[..2], h.amount, h.after[1 - side]
                ));
            }
            if ret > 0 {
                cx.distinct(&format!("{:?}{}{}", h.before, h.amount, side));
                cx.sample(|| format!("pool {} reserves {:?} offered {} of side {side}: paid {ret}, kept {comm}", h.pair, &h.before[..2], h.amount));
                if comm > 0 {
                    cx.count("payouts with a fee");
                }
            }
        }
        if let Op::Swap { pair, side, amt, maxs: None, .. } = &st.op {
            if st.pred.is_ok() {
                cx.eval();
                if !st.out.ok() {
                    return Err(format!("an unguarded swap of {amt} of side {side} into pool {pair} with reserves {:?} was refused: {}", w.pools(&st.pre, *pair), st.out.err()));
                }
                // who offered it paid it, who was named got it
                let d = sheet_diff(w, &w.snap, &st.want);
                if !d.is_empty() {
                    return Err(format!("wrong payment: {}", d.join("; ")));
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P03

pub struct Sheet;
impl Mon for Sheet {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.forge = 5;
        p.ledger = 12;
        p.transfer = 8;
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        cx.eval();
        unchanged_if_refused(w, st)?;
        if !st.out.ok() {
            return Ok(());
        }
        match &st.pred {
            Ok(()) => {
                let d = sheet_diff(w, &w.snap, &st.want);
                if !d.is_empty() {
                    return Err(format!("wrong effect: {}", d.join("; ")));
                }
                for ((a, o, s), v) in &st.allow {
                    let got = w.allowance(*a, *o, *s);
                    if got != *v {
                        return Err(format!("allowance of {} for {} over {} is {:?} instead of {:?}", who(w, *o), who(w, *s), w.assets[*a].name, got, v));
                    }
                }
            }
            Err(Rej::No(why)) => {
                let d = sheet_diff(w, &w.snap, &st.pre);
                if !d.is_empty() {
                    return Err(format!("changed balances although it has to be refused ({why}): {}", d.join("; ")));
                }
            }
            Err(Rej::Maybe(_)) => {
                // whatever it did, it made nothing out of nothing
                for a in 0..w.assets.len() {
                    if w.assets[a].evil || w.assets[a].lp_of.is_some() {
                        continue;
                    }
                    let t: Big = w.snap.bal[a].iter().fold(Big::zero(), |s, v| s.add(&big(*v)));
                    let t0: Big = st.pre.bal[a].iter().fold(Big::zero(), |s, v| s.add(&big(*v)));
                    if t != t0 {
                        return Err(format!("the total of {} went from {t0} to {t}", w.assets[a].name));
                    }
                }
                return Ok(());
            }
        }
        if !matches!(st.op, Op::Blocks(_)) {
            cx.distinct(&format!("{:?}", st.op));
            cx.sample(|| format!("{:?}: the whole balance sheet agrees", st.op));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P04

#[derive(Default)]
pub struct Quote {
    q: Option<Result<[u128; 3], String>>,
}
pub fn simulate(w: &World, pair: usize, asset: usize, amt: u128) -> Result<[u128; 3], String> {
    let p = w.pair_addr(pair);
    w.ask(&p, &json!({"simulation": {"offer_asset": w.asset(asset, amt)}}))
        .map(|v| [num(&v["return_amount"]), num(&v["spread_amount"]), num(&v["commission_amount"])])
}
pub fn reverse(w: &World, pair: usize, asset: usize, amt: u128) -> Result<[u128; 3], String> {
    let p = w.pair_addr(pair);
    w.ask(&p, &json!({"reverse_simulation": {"ask_asset": w.asset(asset, amt)}}))
        .map(|v| [num(&v["offer_amount"]), num(&v["spread_amount"]), num(&v["commission_amount"])])
}
/// something that is not one of the pool's two assets, though it may look like one
pub fn foreign(cx: &mut Cx, w: &World, pair: usize) -> Value {
    let q = &w.pairs[pair];
    let side = cx.r.idx(2);
    let own = &w.assets[q.a[side]];
    let coin = |d: &str| json!({"native_token": {"denom": d}});
    let token = |t: &str| json!({"token": {"contract_addr": t}});
    let others: Vec<usize> = (0..w.assets.len()).filter(|a| !q.a.contains(a)).collect();
    let v = match cx.r.below(8) {
        // the same text, but the other kind of asset
        0 | 1 => {
            if w.is_native(q.a[side]) {
                token(&own.name)
            } else {
                coin(&own.name)
            }
        }
        2 => token(&w.pair_addr(pair)),
        3 => {
            let mut t = own.name.clone();
            match cx.r.below(3) {
                0 => t.push('x'),
                1 => {
                    t.pop();
                }
                _ => t = format!("x{t}"),
            }
            coin(&t)
        }
        _ if !others.is_empty() => {
            let a = cx.r.pick(&others);
            w.info(a)
        }
        _ => coin("unknown"),
    };
    if v == w.info(q.a[0]) || v == w.info(q.a[1]) {
        return coin("unknown");
    }
    v
}
pub fn no_foreign_quote(cx: &mut Cx, w: &World, pair: usize, kind: &str) -> V {
    let info = foreign(cx, w, pair);
    let amt = match cx.r.below(3) {
        0 => w.pools(&w.snap, pair)[cx.r.idx(2)] / 2,
        _ => cx.r.log(60),
    };
    let asset = json!({"info": info, "amount": amt.to_string()});
    let msg = if kind == "simulation" {
        json!({"simulation": {"offer_asset": asset}})
    } else {
        json!({"reverse_simulation": {"ask_asset": asset}})
    };
    cx.eval();
    cx.count("quotes of assets that are not the pool's");
    match w.ask(&w.pair_addr(pair), &msg) {
        Ok(v) => Err(format!(
            "pool {pair} of {} and {} answered {v} to {msg}",
            w.info(w.pairs[pair].a[0]),
            w.info(w.pairs[pair].a[1])
        )),
        Err(_) => Ok(()),
    }
}
impl Mon for Quote {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.swap = 60;
        p.route = 4;
        p.guard = 15;
    }
    fn hops(&self) -> bool {
        true
    }
    fn before(&mut self, _: &mut Cx, w: &mut World, op: &Op) -> V {
        self.q = match op {
            Op::Swap { pair, side, amt, .. } => Some(simulate(w, *pair, w.pairs[*pair].a[*side], *amt)),
            _ => None,
        };
        Ok(())
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        if cx.r.chance(1, 4) {
            let pair = cx.r.idx(w.pairs.len());
            no_foreign_quote(cx, w, pair, "simulation")?;
        }
        if cx.r.chance(1, 3) {
            // offers nobody makes here, and of coins, which a pool quotes all the same
            let (pair, side) = (cx.r.idx(w.pairs.len()), cx.r.idx(2));
            let pools = w.pools(&w.snap, pair);
            if !pools.contains(&0) && !w.pairs[pair].evil {
                let a = w.pairs[pair].a[side];
                let amt = match cx.r.below(6) {
                    0 => pools[side],
                    1 => cx.r.log(127),
                    2 => cx.r.below(10) as u128,
                    3 => cx.r.upto(pools[1 - side]),
                    _ => cx.r.upto(pools[side]),
                };
                let q = simulate(w, pair, a, amt);
                cx.eval();
                cx.count(if w.is_native(a) { "quotes of coin offers" } else { "quotes of token offers" });
                let want = swap_calc(pools[side], pools[1 - side], amt).filter(|x| x.1.u128().is_some());
                match (&q, want) {
                    (Ok(q), Some((ret, spread, comm))) if (big(q[0]), big(q[1]), big(q[2])) == (big(ret), spread.clone(), big(comm)) => {}
                    (Err(_), None) => {}
                    (q, want) => return Err(format!("reserves {pools:?}, {amt} of side {side}: quoted {q:?} instead of {want:?}")),
                }
            }
        }
        let (pair, side, amt, to, sender) = match &st.op {
            Op::Swap { pair, side, amt, to, who, .. } => (*pair, *side, *amt, to, *who),
            _ => return Ok(()),
        };
        let q = self.q.take().unwrap();
        if w.pools(&st.pre, pair).contains(&0) {
            return Ok(());
        }
        if !st.out.ok() {
            // an unguarded swap that would be paid cannot be refused when it was quoted
            if st.pred.is_ok() && matches!(st.op, Op::Swap { maxs: None, .. }) && q.is_ok() {
                return Err(format!("quoted {q:?}, but refused: {}", st.out.err()));
            }
            return Ok(());
        }
        cx.eval();
        let q = q.map_err(|e| format!("accepted, but the quote just before failed: {e}"))?;
        let ask = w.pairs[pair].a[1 - side];
        let rec = match to {
            To::Acct(i) => *i,
            _ => sender,
        };
        let got = w.snap.bal[ask][rec].wrapping_sub(st.pre.bal[ask][rec]);
        if rec != w.pairs[pair].acct && got != q[0] {
            return Err(format!("quoted a payout of {} for {amt}, but {} received {got}", q[0], who(w, rec)));
        }
        let ev = st.out.attrs(&w.pair_addr(pair), "swap");
        let ev = ev.first().ok_or("no swap reported")?;
        for (i, k) in ["return_amount", "spread_amount", "commission_amount"].iter().enumerate() {
            let e = ev.get(*k).cloned().unwrap_or_default();
            if e != q[i].to_string() {
                return Err(format!("quoted {k} {}, but executed with {e}", q[i]));
            }
        }
        // the fee quoted is what stays behind out of the gross output
        let pools = w.pools(&st.pre, pair);
        if let Some((ret, spread, comm)) = swap_calc(pools[side], pools[1 - side], amt) {
            if (big(q[0]), big(q[1]), big(q[2])) != (big(ret), spread.clone(), big(comm)) {
                return Err(format!("quoted {q:?} instead of payout {ret}, spread {spread}, fee {comm}"));
            }
        }
        if q[0] > 0 {
            cx.distinct(&format!("{:?}{amt}{side}", pools));
            cx.sample(|| format!("reserves {pools:?}, {amt} of side {side}: quoted and executed {q:?}"));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- gates: accepted exactly when specified, with the specified effect

/// A property that is decided by agreement with the specification on the operations it is about.
pub struct Agree {
    pub set: fn(&mut Cx, &mut Profile),
    /// None: not about this operation. Some(non-trivial)
    pub about: fn(&World, &Step) -> Option<bool>,
    pub pick: Option<fn(&mut Cx, &World, &Profile) -> Op>,
}
impl Mon for Agree {
    fn profile(&mut self, cx: &mut Cx, p: &mut Profile) {
        (self.set)(cx, p)
    }
    fn gen(&mut self, cx: &mut Cx, w: &World, p: &Profile) -> Op {
        match self.pick {
            Some(f) => f(cx, w, p),
            None => gen::op(&mut cx.r, w, p),
        }
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        let nt = match (self.about)(w, st) {
            Some(x) => x,
            None => return Ok(()),
        };
        if st.open() {
            cx.count(&format!("left open: {}", match &st.pred {
                Err(Rej::Maybe(s)) => s,
                _ => "",
            }));
            return Ok(());
        }
        cx.eval();
        match &st.pred {
            Ok(()) => cx.count("to be accepted"),
            Err(Rej::No(why)) => cx.count(&format!("to be refused: {why}")),
            _ => {}
        }
        agree(w, st)?;
        if nt {
            cx.distinct(&format!("{:?}{:?}", st.op, st.pre.supply));
            cx.sample(|| format!("{:?}: specified {:?}", st.op, st.pred));
        }
        Ok(())
    }
}

fn supply_before(w: &World, st: &Step, pair: usize) -> u128 {
    st.pre.supply[w.pairs[pair].lp]
}

pub fn spread_guard(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |_, p| {
                p.swap = 80;
                p.guard = 88;
                p.route = 1;
            },
            about: |_, st| match &st.op {
                Op::Swap { maxs, belief, .. } => match &st.pred {
                    Err(Rej::No(why)) if *why != "loss over the maximum" => None,
                    _ if maxs.is_none() && belief.is_none() => None,
                    _ => Some(maxs.is_some()),
                },
                _ => None,
            },
            pick: None,
        },
    )
}

pub fn forged(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |_, p| {
                p.forge = 45;
                p.swap = 8;
                p.router_misc = 0;
            },
            about: |_, st| match &st.op {
                Op::Forge { .. } | Op::Misdirect { .. } => Some(matches!(st.pred, Err(Rej::No(_)))),
                _ => None,
            },
            pick: None,
        },
    )
}

pub fn first_provision(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |_, p| {
                p.init = 0;
                p.provide = 60;
                p.swap = 6;
                p.withdraw = 30;
                p.route = 0;
                p.mess = 4;
                p.tol = 10;
                p.max_pairs = 3;
            },
            about: |w, st| match &st.op {
                Op::Provide { pair, .. } if supply_before(w, st, *pair) == 0 => match &st.pred {
                    Ok(()) => Some(true),
                    Err(Rej::No(w)) => match *w {
                        "first provider not on the whitelist" | "first deposit below the minimum" | "no share" | "share over 128 bits" => Some(true),
                        _ => None,
                    },
                    Err(Rej::Maybe(_)) => Some(false),
                },
                _ => None,
            },
            pick: Some(|cx, w, p| {
                // empty the pools again and again
                if cx.r.chance(1, 3) {
                    let pair = cx.r.idx(w.pairs.len());
                    let lp = w.pairs[pair].lp;
                    if w.shares(&w.snap, pair) == 0 {
                        return gen::provide(&mut cx.r, w, p, pair);
                    }
                    if let Some(u) = (0..w.accts.len()).find(|u| w.snap.bal[lp][*u] > 0) {
                        if cx.r.chance(1, 4) {
                            return Op::Burn { asset: lp, who: u, amt: w.snap.bal[lp][u] };
                        }
                        return Op::Withdraw { pair, who: u, amt: w.snap.bal[lp][u], owner: None };
                    }
                }
                gen::op(&mut cx.r, w, p)
            }),
        },
    )
}

pub fn later_provision(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |_, p| {
                p.init = 100;
                p.provide = 70;
                p.tol = 10;
                p.mess = 3;
            },
            about: |w, st| match &st.op {
                Op::Provide { pair, .. } if supply_before(w, st, *pair) > 0 => match &st.pred {
                    Ok(()) => Some(true),
                    Err(Rej::No(w)) => match *w {
                        "no share" | "shares over 128 bits" | "share over 128 bits" | "allowance too small" | "allowance expired" | "balance too small"
                        | "recipient is no address" => Some(true),
                        _ => None,
                    },
                    Err(Rej::Maybe(_)) => Some(false),
                },
                _ => None,
            },
            pick: None,
        },
    )
}

pub fn attached(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |cx, p| {
                p.provide = 80;
                p.mess = 65;
                p.tol = 5;
                p.max_natives = if cx.r.chance(1, 2) { 4 } else { 2 };
                p.max_tokens = 2;
                p.max_pairs = 5;
            },
            about: |w, st| match &st.op {
                Op::Provide { pair, .. } => match &st.pred {
                    Ok(()) => Some(w.pairs[*pair].a.iter().any(|a| w.is_native(*a))),
                    Err(Rej::No(w)) => match *w {
                        "declared and attached coins differ" | "an asset of the pool is missing" => Some(true),
                        _ => None,
                    },
                    Err(Rej::Maybe(_)) => Some(false),
                },
                Op::NativeSwap { .. } => Some(false),
                _ => None,
            },
            pick: None,
        },
    )
}

pub fn slippage(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |_, p| {
                p.provide = 80;
                p.init = 92;
                p.tol = 92;
                p.mess = 1;
            },
            about: |_, st| match &st.op {
                Op::Provide { tol, .. } => {
                    tol.as_ref()?;
                    match &st.pred {
                        Ok(()) => Some(true),
                        Err(Rej::No(w)) => match *w {
                            "tolerance over one" | "one-sided deposit" | "price beyond tolerance" => Some(true),
                            _ => None,
                        },
                        Err(Rej::Maybe(_)) => Some(false),
                    }
                }
                _ => None,
            },
            pick: None,
        },
    )
}

pub fn withdrawal(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |_, p| {
                p.provide = 30;
                p.withdraw = 60;
                p.swap = 15;
                p.init = 100;
            },
            about: |_, st| match &st.op {
                Op::Withdraw { .. } => Some(st.pred.is_ok()),
                _ => None,
            },
            pick: None,
        },
    )
}

fn routing(_: &mut Cx, p: &mut Profile) {
    p.route = 70;
    p.swap = 10;
    p.provide = 8;
    p.withdraw = 4;
    p.transfer = 4;
    p.init = 100;
    p.max_pairs = 6;
    p.max_tokens = 5;
    p.max_natives = 1;
    p.mess = 2;
}

pub fn minimum(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |cx, p| {
                routing(cx, p);
                p.router_misc = 4;
            },
            about: |_, st| match &st.op {
                Op::Route { min: Some(_), .. } | Op::RouterAssert { .. } => match &st.pred {
                    Ok(()) => Some(true),
                    Err(Rej::No(w)) => match *w {
                        "less than the minimum" | "recipient lost" | "lost" => Some(true),
                        _ => None,
                    },
                    Err(Rej::Maybe(_)) => Some(false),
                },
                _ => None,
            },
            pick: None,
        },
    )
}

pub struct Chain;
impl Mon for Chain {
    fn profile(&mut self, cx: &mut Cx, p: &mut Profile) {
        routing(cx, p)
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        let (steps, entry) = match &st.op {
            Op::Route { steps, entry, .. } => (steps, entry),
            _ => return Ok(()),
        };
        if st.open() {
            return Ok(());
        }
        cx.eval();
        match &st.pred {
            Err(Rej::No(why)) => {
                if st.out.ok() && sheet_diff(w, &w.snap, &st.pre).len() > 0 {
                    return Err(format!("must be refused ({why}), but was accepted"));
                }
                return unchanged_if_refused(w, st);
            }
            _ => agree(w, st)?,
        }
        // nothing of what it was given, nor of what came between, stays with the router
        let target = steps.last().unwrap().1;
        let to_router = st.receipts.last().map_or(false, |r| matches!(r, Receipt::Swap { receiver, .. } if *receiver == w.router));
        for (i, (o, _)) in steps.iter().enumerate() {
            // an inner step yielded it again, and no step offers that
            if steps.iter().enumerate().any(|(j, s)| j > i && j + 1 < steps.len() && s.1 == *o && !steps[j..].iter().any(|t| t.0 == *o)) {
                continue;
            }
            if w.snap.bal[*o][w.router] != 0 && !(to_router && *o == target) {
                // a cycle can end in an asset it started from; then the recipient has it
                return Err(format!("{} of {} are left with the router", w.snap.bal[*o][w.router], w.assets[*o].name));
            }
        }
        let _ = entry;
        cx.count(&format!("routes of {} steps", steps.len()));
        cx.distinct(&format!("{:?}{:?}", st.op, st.receipts));
        cx.sample(|| format!("{:?}: {:?}", st.op, st.receipts));
        Ok(())
    }
}

/// P24: who may run a step, and which routes have one output
pub fn shape(cx: &mut Cx) -> V {
    history(
        cx,
        Agree {
            set: |cx, p| {
                routing(cx, p);
                p.router_misc = 20;
            },
            about: |_, st| match &st.op {
                Op::RouterStep { .. } => Some(true),
                Op::Route { steps, .. } => match &st.pred {
                    Err(Rej::No("not one output")) => Some(true),
                    Ok(()) => Some(!route_shape_ok(steps) || steps.len() > 1),
                    _ => None,
                },
                Op::Forge { hook: sim::Hook::Route, .. } => Some(true),
                _ => None,
            },
            pick: Some(|cx, w, p| {
                if cx.r.chance(1, 4) {
                    if let Some(op) = gen::fed_route(&mut cx.r, w) {
                        return op;
                    }
                }
                if cx.r.chance(1, 3) {
                    // arbitrary steps
                    let n = cx.r.range(0, 4) as usize;
                    let mut steps: Vec<(usize, usize)> = vec![];
                    let pool = cx.r.range(2, 4) as usize;
                    let pick: Vec<usize> = (0..pool).map(|_| cx.r.idx(w.assets.len())).collect();
                    for _ in 0..n {
                        if !w.pairs.is_empty() && cx.r.chance(2, 3) {
                            let q = &w.pairs[cx.r.idx(w.pairs.len())];
                            let s = cx.r.idx(2);
                            steps.push((q.a[s], q.a[1 - s]));
                        } else {
                            steps.push((cx.r.pick(&pick), cx.r.pick(&pick)));
                        }
                    }
                    let first = steps.first().map_or(0, |s| s.0);
                    let who = cx.r.idx(w.users);
                    let have = w.snap.bal[first][who];
                    let amt = gen::amount(&mut cx.r, have / 100).max(1);
                    let entry = if w.is_native(first) {
                        Entry::Direct { funds: vec![(first, amt)] }
                    } else {
                        Entry::Send { asset: first, amt, owner: None }
                    };
                    return Op::Route { who, steps, entry, min: None, to: To::Default };
                }
                gen::op(&mut cx.r, w, p)
            }),
        },
    )
}

// ---------------------------------------------------------------- P25

#[derive(Default)]
pub struct RouteQuote {
    q: Option<u128>,
}
fn forward(w: &World, steps: &[(usize, usize)], amt: u128) -> Option<u128> {
    let mut x = amt;
    for s in steps {
        let (p, _) = Sim::new(w).find_pair(s.0, s.1)?;
        x = simulate(w, p, s.0, x).ok()?[0];
    }
    Some(x)
}
fn backward(w: &World, steps: &[(usize, usize)], amt: u128) -> Option<u128> {
    let mut x = amt;
    for s in steps.iter().rev() {
        let (p, _) = Sim::new(w).find_pair(s.0, s.1)?;
        x = reverse(w, p, s.1, x).ok()?[0];
    }
    Some(x)
}
impl RouteQuote {
    fn quotes(&mut self, cx: &mut Cx, w: &World, steps: &[(usize, usize)], amt: u128) -> V {
        let r = w.accts[w.router].clone();
        let ops = sim::steps_json(w, steps);
        let got = w
            .ask(&r, &json!({"simulate_swap_operations": {"offer_amount": amt.to_string(), "operations": ops}}))
            .ok()
            .map(|v| num(&v["amount"]));
        cx.eval();
        if steps.is_empty() && got.is_some() {
            return Err(format!("a route without a step is quoted {got:?}"));
        }
        let want = if steps.is_empty() { None } else { forward(w, steps, amt) };
        if got != want {
            return Err(format!("a route quoted for {amt} gives {got:?}, its pools one after the other {want:?}"));
        }
        if want.map_or(false, |x| x > 0) {
            cx.count("forward quotes of positive amounts");
            cx.distinct(&format!("f{:?}{amt}{:?}", steps, want));
        }
        self.q = want;
        let last = steps.last().and_then(|s| Sim::new(w).find_pair(s.0, s.1));
        let ask = match last {
            Some((p, side)) => {
                let res = w.pools(&w.snap, p)[1 - side];
                match cx.r.below(5) {
                    0 => res,
                    1 => res / 1000 * 997,
                    2 => cx.r.log(60),
                    _ => cx.r.upto(res),
                }
            }
            None => cx.r.log(60),
        };
        let got = w
            .ask(&r, &json!({"reverse_simulate_swap_operations": {"ask_amount": ask.to_string(), "operations": ops}}))
            .ok()
            .map(|v| num(&v["amount"]));
        let want = if steps.is_empty() { None } else { backward(w, steps, ask) };
        cx.eval();
        if got != want {
            return Err(format!("asking a route for {ask} gives {got:?}, its pools from the last to the first {want:?}"));
        }
        if want.map_or(false, |x| x > 0) {
            cx.count("reverse quotes of positive amounts");
            cx.distinct(&format!("r{:?}{ask}{:?}", steps, want));
            cx.sample(|| format!("route {steps:?}: for {ask} one has to offer {want:?}; {amt} gives {:?}", self.q));
        }
        Ok(())
    }
}
impl Mon for RouteQuote {
    fn profile(&mut self, cx: &mut Cx, p: &mut Profile) {
        routing(cx, p)
    }
    fn before(&mut self, cx: &mut Cx, w: &mut World, op: &Op) -> V {
        self.q = None;
        if cx.r.chance(1, 12) {
            // a route nobody takes: any pools in any order, broken chains, unknown pairs, no step at all
            let n = cx.r.pick(&[0usize, 1, 2, 3, 4, 6]);
            let steps: Vec<(usize, usize)> = (0..n)
                .map(|_| {
                    if cx.r.chance(1, 8) || w.pairs.is_empty() {
                        (cx.r.idx(w.assets.len()), cx.r.idx(w.assets.len()))
                    } else {
                        let a = w.pairs[cx.r.idx(w.pairs.len())].a;
                        if cx.r.chance(1, 2) { (a[0], a[1]) } else { (a[1], a[0]) }
                    }
                })
                .collect();
            let amt = if cx.r.chance(1, 8) { 0 } else { cx.r.log(128) };
            self.quotes(cx, w, &steps, amt)?;
            self.q = None;
        }
        match op {
            Op::Route { steps, entry, .. } if !steps.is_empty() => {
                let amt = match entry {
                    Entry::Send { amt, .. } => *amt,
                    Entry::Direct { funds } => funds.first().map_or(1, |f| f.1),
                };
                self.quotes(cx, w, steps, amt)
            }
            _ => Ok(()),
        }
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        let (steps, entry) = match &st.op {
            Op::Route { steps, entry, .. } if st.out.ok() && st.pred.is_ok() => (steps, entry),
            _ => return Ok(()),
        };
        let mut ps: Vec<usize> = steps.iter().filter_map(|s| Sim::new(w).find_pair(s.0, s.1)).map(|x| x.0).collect();
        ps.sort();
        ps.dedup();
        let amt = match entry {
            Entry::Send { asset, amt, .. } if *asset == steps[0].0 => *amt,
            _ => return Ok(()),
        };
        // each pool once, an unbroken chain, and a router with nothing of its own
        if ps.len() != steps.len()
            || steps.windows(2).any(|s| s[0].1 != s[1].0)
            || steps.iter().any(|s| st.pre.bal[s.0][w.router] != 0)
        {
            return Ok(());
        }
        cx.eval();
        let paid = match st.receipts.last() {
            Some(Receipt::Swap { receiver, pair, side, .. }) => {
                let a = w.pairs[*pair].a[1 - side];
                // neither the offerer nor a pool of the route
                if ps.iter().any(|p| w.pairs[*p].acct == *receiver) || a == steps[0].0 {
                    return Ok(());
                }
                w.snap.bal[a][*receiver].wrapping_sub(st.pre.bal[a][*receiver])
            }
            _ => return Ok(()),
        };
        if Some(paid) != self.q {
            return Err(format!("{amt} along {steps:?} was quoted {:?}, but {paid} was paid", self.q));
        }
        cx.count("executions equal to the quote");
        Ok(())
    }
}

// ---------------------------------------------------------------- P13

pub struct ShareValue;
impl Mon for ShareValue {
    fn profile(&mut self, cx: &mut Cx, p: &mut Profile) {
        p.provide = 28;
        p.withdraw = 25;
        p.init = 100;
        p.max_pairs = 3;
        p.mess = 2;
        if cx.r.chance(1, 3) {
            p.steps = 150;
        }
    }
    fn hops(&self) -> bool {
        true
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        let check = |cx: &mut Cx, pair: usize, a: [u128; 3], b: [u128; 3]| -> V {
            if a[2] == 0 || b[2] == 0 {
                return Ok(());
            }
            cx.eval();
            let l = big(b[0]).mul(&big(b[1])).mul(&big(a[2])).mul(&big(a[2]));
            let r = big(a[0]).mul(&big(a[1])).mul(&big(b[2])).mul(&big(b[2]));
            if l < r {
                return Err(format!("the value behind a share of pool {pair} fell: reserves and shares went from {a:?} to {b:?}"));
            }
            if b[0] == 0 || b[1] == 0 {
                return Err(format!("pool {pair} has shares but an empty reserve: {b:?}"));
            }
            if a != b {
                cx.distinct(&format!("{a:?}{b:?}"));
                cx.sample(|| format!("pool {pair}: reserves and shares {a:?} -> {b:?}"));
            }
            Ok(())
        };
        for h in &st.out.hops {
            if h.ok && !w.pairs[h.pair].evil {
                check(cx, h.pair, h.before, h.after)?;
            }
        }
        let n = w.pairs.len();
        for p in 0..n {
            let at = |s: &Snap| {
                let r = w.pools(s, p);
                [r[0], r[1], w.shares(s, p)]
            };
            let (a, b) = (at(&st.pre), at(&w.snap));
            if a != b {
                check(cx, p, a, b)?;
            }
        }
        // in and straight out again
        if let (Op::Provide { pair, listed, .. }, true) = (&st.op, st.out.ok()) {
            let (pair, listed) = (*pair, *listed);
            let lp = w.pairs[pair].lp;
            let before = st.pre.supply[lp];
            if before == 0 || st.open() {
                return Ok(());
            }
            let rec = (0..w.accts.len()).find(|c| w.snap.bal[lp][*c] > st.pre.bal[lp][*c]);
            if let Some(c) = rec {
                if w.pairs.iter().any(|p| p.acct == c) {
                    return Ok(());
                }
                let got = w.snap.bal[lp][c].saturating_sub(st.pre.bal[lp][c]);
                let f = w.fork();
                let a = w.pairs[pair].a;
                let o = [w.snap.bal[a[0]][c], w.snap.bal[a[1]][c]];
                let out = sim::run(w, &Op::Withdraw { pair, who: c, amt: got, owner: None });
                w.observe_touched(&out.touched);
                let n = [w.snap.bal[a[0]][c], w.snap.bal[a[1]][c]];
                let ok = out.ok();
                w.restore(&f);
                if ok {
                    cx.eval();
                    cx.count("in and straight out");
                    for i in 0..2 {
                        let d = listed.iter().find(|l| l.0 == a[i]).map_or(0, |l| l.1);
                        if n[i].saturating_sub(o[i]) > d {
                            return Err(format!("putting in {d} of {} and leaving at once returned {}", w.assets[a[i]].name, n[i] - o[i]));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P14

pub struct ShareSupply;
impl Mon for ShareSupply {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.provide = 25;
        p.withdraw = 25;
        p.ledger = 25;
        p.forge = 10;
    }
    fn gen(&mut self, cx: &mut Cx, w: &World, p: &Profile) -> Op {
        if cx.r.chance(1, 6) {
            // the share ledger itself
            let lp = w.pairs[cx.r.idx(w.pairs.len())].lp;
            let u = cx.r.idx(w.accts.len());
            let v = cx.r.idx(w.accts.len());
            let have = w.snap.bal[lp][u];
            let is_pool = |c: usize| w.assets[lp].minter == Some(c);
            return match cx.r.below(5) {
                0 if !is_pool(u) => Op::Mint { asset: lp, who: u, to: To::Acct(v), amt: cx.r.log(60) },
                1 if !is_pool(u) => Op::NewMinter { asset: lp, who: u, to: Some(v) },
                2 => Op::Burn { asset: lp, who: u, amt: gen::amount(&mut cx.r, have / 10) },
                3 => Op::BurnFrom { asset: lp, who: v, owner: u, amt: gen::amount(&mut cx.r, have) },
                _ => Op::Transfer { asset: lp, from: u, to: To::Acct(v), amt: gen::amount(&mut cx.r, have) },
            };
        }
        gen::op(&mut cx.r, w, p)
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        for p in 0..w.pairs.len() {
            let lp = w.pairs[p].lp;
            let sum = w.snap.bal[lp].iter().fold(Big::zero(), |s, v| s.add(&big(*v)));
            cx.eval();
            if sum != big(w.snap.supply[lp]) {
                return Err(format!("the shares of pool {p} are {} in all, but their holders have {sum}", w.snap.supply[lp]));
            }
            let (a, b) = (st.pre.supply[lp], w.snap.supply[lp]);
            if a != b {
                cx.distinct(&format!("{a}{b}{:?}", st.op));
                let fits = match &st.op {
                    Op::Provide { pair, .. } => *pair == p && b > a,
                    Op::Withdraw { pair, amt, .. } => *pair == p && a.checked_sub(*amt) == Some(b),
                    Op::Misdirect { asset, amt, hook: sim::Hook::Withdraw, .. } => *asset == lp && a.checked_sub(*amt) == Some(b),
                    Op::Burn { asset, amt, .. } | Op::BurnFrom { asset, amt, .. } => *asset == lp && a.checked_sub(*amt) == Some(b),
                    _ => false,
                };
                if !fits {
                    return Err(format!("the shares of pool {p} went from {a} to {b}"));
                }
                cx.sample(|| format!("{:?}: shares {a} -> {b}", st.op));
                // exactly the provider's own share, to the one named
                if st.pred.is_ok() && (st.want.supply[lp] != b || st.want.bal[lp] != w.snap.bal[lp]) {
                    return Err(format!("the shares of pool {p} went from {a} to {b} instead of {}, or to the wrong holder", st.want.supply[lp]));
                }
            }
        }
        if st.out.ok() && matches!(st.op, Op::Mint { asset, .. } | Op::NewMinter { asset, .. } if w.assets[asset].lp_of.is_some()) {
            return Err("somebody other than the pool controls the issue of its shares".into());
        }
        Ok(())
    }
    fn finish(&mut self, cx: &mut Cx, w: &mut World) -> V {
        for p in 0..w.pairs.len() {
            let lp = w.assets[w.pairs[p].lp].name.clone();
            cx.eval();
            let m = w.ask(&lp, &json!({"minter": {}}))?;
            if m["minter"].as_str() != Some(&w.pair_addr(p)) || !m["cap"].is_null() {
                return Err(format!("the share token of pool {p} names {m} as its minter"));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P15

pub struct Exit;
impl Exit {
    fn leave(&self, cx: &mut Cx, w: &mut World) -> V {
        let f = w.fork();
        let r = self.leave_all(cx, w);
        w.restore(&f);
        r
    }
    fn leave_all(&self, cx: &mut Cx, w: &mut World) -> V {
        for p in 0..w.pairs.len() {
            let lp = w.pairs[p].lp;
            if w.shares(&w.snap, p) == 0 {
                continue;
            }
            let pool = w.pairs[p].acct;
            // shares that the pool itself holds belong to nobody
            let stuck = w.snap.bal[lp][pool];
            if stuck > 0 {
                let n = w.assets[lp].name.clone();
                let o = w.exec(pool, &n, &json!({"burn": {"amount": stuck.to_string()}}), &[]);
                w.observe_touched(&o.touched);
            }
            let mut hs: Vec<usize> = (0..w.accts.len()).filter(|c| w.snap.bal[lp][*c] > 0).collect();
            cx.r.shuffle(&mut hs);
            let n = hs.len();
            for (i, h) in hs.iter().enumerate() {
                let s = w.snap.bal[lp][*h];
                let res = w.pools(&w.snap, p);
                let supply = w.shares(&w.snap, p);
                let op = Op::Withdraw { pair: p, who: *h, amt: s, owner: None };
                let due: Vec<Big> = res
                    .iter()
                    .map(|r| big(*r).mul(&crate::big::ratio18(&big(s), &big(supply))).div(&big(crate::big::E18)))
                    .collect();
                let st = step(w, &op);
                cx.eval();
                if due.iter().any(|d| d.is_zero()) {
                    continue;
                }
                if !st.out.ok() {
                    return Err(format!(
                        "{} holds {s} of the {supply} shares of pool {p} with reserves {res:?} and cannot leave: {}",
                        who(w, *h),
                        st.out.err()
                    ));
                }
                let a = w.pairs[p].a;
                for k in 0..2 {
                    let got = w.snap.bal[a[k]][*h].wrapping_sub(st.pre.bal[a[k]][*h]);
                    if big(got) != due[k] {
                        return Err(format!("{} left pool {p} with {got} instead of {}", who(w, *h), due[k]));
                    }
                }
                cx.distinct(&format!("{s} {supply} {res:?}"));
                cx.count("holders that left");
                if i + 1 == n && s == supply {
                    cx.count("pools emptied by the last holder");
                    let r = w.pools(&w.snap, p);
                    if r != [0, 0] || w.shares(&w.snap, p) != 0 {
                        return Err(format!("the last holder left, but pool {p} keeps {r:?} and {} shares", w.shares(&w.snap, p)));
                    }
                    cx.sample(|| format!("pool {p}: {n} holders left one after the other, the last took {res:?}"));
                }
            }
        }
        Ok(())
    }
}
impl Mon for Exit {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.provide = 35;
        p.withdraw = 8;
        p.init = 100;
        p.max_pairs = 2;
        p.mess = 0;
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, _: &Step) -> V {
        if cx.r.chance(1, 12) {
            self.leave(cx, w)?;
        }
        Ok(())
    }
    fn finish(&mut self, cx: &mut Cx, w: &mut World) -> V {
        self.leave(cx, w)
    }
}

// ---------------------------------------------------------------- P16

pub struct Views;
pub fn record_json(w: &World, p: usize) -> Value {
    let q = &w.pairs[p];
    json!({
        "asset_infos": [w.info(q.a[0]), w.info(q.a[1])],
        "contract_addr": w.accts[q.acct],
        "liquidity_token": w.assets[q.lp].name,
        "asset_decimals": q.dec,
        "requirements": {
            "whitelist": q.whitelist.iter().map(|u| w.wl_name(*u)).collect::<Vec<_>>(),
            "first_asset_minimum": q.mins[0].to_string(),
            "second_asset_minimum": q.mins[1].to_string(),
        },
    })
}
impl Views {
    fn look(&self, cx: &mut Cx, w: &World, p: usize) -> V {
        cx.eval();
        let addr = w.pair_addr(p);
        let r = w.pools(&w.snap, p);
        let want = json!({
            "assets": [w.asset(w.pairs[p].a[0], r[0]), w.asset(w.pairs[p].a[1], r[1])],
            "total_share": w.shares(&w.snap, p).to_string(),
        });
        let got = w.ask(&addr, &json!({"pool": {}})).map_err(|e| format!("pool {p} does not answer: {e}"))?;
        if got != want {
            return Err(format!("pool {p} states {got}, but has {want}"));
        }
        let want = record_json(w, p);
        let got = w.ask(&addr, &json!({"pair": {}})).map_err(|e| format!("pool {p} does not answer: {e}"))?;
        if got != want {
            return Err(format!("pool {p} states {got}, but was created as {want}"));
        }
        let f = w.accts[w.factory].clone();
        let i = w.pairs[p].a;
        let s = cx.r.idx(2);
        let got = w
            .ask(&f, &json!({"pair": {"asset_infos": [w.info(i[s]), w.info(i[1 - s])]}}))
            .map_err(|e| format!("the factory does not know pool {p}: {e}"))?;
        if got != want {
            return Err(format!("the factory states {got} for pool {p}, but it was created as {want}"));
        }
        cx.distinct(&format!("{r:?}{}", w.shares(&w.snap, p)));
        Ok(())
    }
}
impl Mon for Views {
    fn start(&mut self, cx: &mut Cx, w: &mut World) -> V {
        for p in 0..w.pairs.len() {
            self.look(cx, w, p)?;
        }
        Ok(())
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        for p in 0..w.pairs.len() {
            let moved = w.pools(&st.pre, p) != w.pools(&w.snap, p) || w.shares(&st.pre, p) != w.shares(&w.snap, p);
            if moved || cx.r.chance(1, 10) {
                self.look(cx, w, p)?;
                cx.sample(|| format!("pool {p} after {:?}: reserves {:?}", st.op, w.pools(&w.snap, p)));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P32

pub struct Reports;
fn show(w: &World, a: usize, n: u128) -> String {
    format!("{n}{}", w.assets[a].name)
}
impl Mon for Reports {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        p.route = 15;
        p.provide = 25;
        p.withdraw = 20;
        p.guard = 10;
    }
    fn hops(&self) -> bool {
        true
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        if !st.out.ok() {
            return Ok(());
        }
        // every report of a pool, in order
        for p in 0..w.pairs.len() {
            let addr = w.pair_addr(p);
            // what really moved at this pool
            let hops: Vec<&Hop> = st.out.hops.iter().filter(|h| h.ok && h.pair == p && hop_swap(w, h).is_some()).collect();
            let ev = st.out.attrs(&addr, "swap");
            if ev.len() != hops.len() {
                return Err(format!("pool {p} reported {} swaps, but made {}", ev.len(), hops.len()));
            }
            for (e, h) in ev.iter().zip(&hops) {
                cx.eval();
                let (side, rec) = hop_swap(w, h).unwrap();
                let a = w.pairs[p].a;
                let g = |k: &str| e.get(k).cloned().unwrap_or_default();
                let paid = h.before[1 - side].wrapping_sub(h.after[1 - side]);
                let own = rec == Some(w.pairs[p].acct);
                let mut bad = vec![];
                if g("offer_amount") != h.amount.to_string() {
                    bad.push(format!("offer_amount {} for {}", g("offer_amount"), h.amount));
                }
                if !own && g("return_amount") != paid.to_string() {
                    bad.push(format!("return_amount {} for {paid}", g("return_amount")));
                }
                if g("sender") != h.sender || Some(g("receiver")) != rec.map(|r| w.accts[r].clone()) {
                    bad.push(format!("sender {} receiver {}", g("sender"), g("receiver")));
                }
                if g("offer_asset") != w.assets[a[side]].name || g("ask_asset") != w.assets[a[1 - side]].name {
                    bad.push(format!("assets {} {}", g("offer_asset"), g("ask_asset")));
                }
                if let Some((ret, spread, comm)) = swap_calc(h.before[side], h.before[1 - side], h.amount) {
                    if own && g("return_amount") != ret.to_string() {
                        bad.push(format!("return_amount {} for {ret}", g("return_amount")));
                    }
                    if g("spread_amount") != spread.to_string() || g("commission_amount") != comm.to_string() {
                        bad.push(format!("spread {} fee {} instead of {spread} and {comm}", g("spread_amount"), g("commission_amount")));
                    }
                }
                if !bad.is_empty() {
                    return Err(format!("pool {p} reported a swap wrongly: {}", bad.join("; ")));
                }
                cx.count("swap reports");
                cx.distinct(&format!("{e:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>());
                cx.sample(|| format!("{e:?}"));
            }
            let pr = &w.pairs[p];
            let minted = match &st.op {
                Op::Provide { pair, .. } if *pair == p => 1,
                _ => 0,
            };
            let ev = st.out.attrs(&addr, "provide_liquidity");
            if ev.len() != minted {
                return Err(format!("pool {p} reported {} provisions, but {minted} was made", ev.len()));
            }
            if let (Some(e), Op::Provide { who: u, listed, recv, .. }) = (ev.first(), &st.op) {
                cx.eval();
                let rec = match recv {
                    To::Acct(i) => *i,
                    _ => *u,
                };
                let share = w.snap.supply[pr.lp].wrapping_sub(st.pre.supply[pr.lp]);
                let want = [
                    ("sender", w.accts[*u].clone()),
                    ("receiver", w.accts[rec].clone()),
                    ("share", share.to_string()),
                    ("assets", format!("{}, {}", show(w, listed[0].0, listed[0].1), show(w, listed[1].0, listed[1].1))),
                ];
                for (k, v) in want {
                    if e.get(k) != Some(&v) {
                        return Err(format!("pool {p} reported {k} {:?} instead of {v}", e.get(k)));
                    }
                }
                cx.count("provision reports");
                cx.distinct(&format!("{share}{listed:?}"));
            }
            let gone = match &st.op {
                Op::Withdraw { pair, who, amt, .. } if *pair == p => Some((*who, *amt)),
                Op::Misdirect { asset, who, target, amt, hook: sim::Hook::Withdraw } if *target == pr.acct && *asset == pr.lp => Some((*who, *amt)),
                _ => None,
            };
            let ev = st.out.attrs(&addr, "withdraw_liquidity");
            if ev.len() != gone.is_some() as usize {
                return Err(format!("pool {p} reported {} withdrawals", ev.len()));
            }
            if let (Some(e), Some((u, amt))) = (ev.first(), gone) {
                cx.eval();
                let (a, b) = (w.pools(&st.pre, p), w.pools(&w.snap, p));
                let mut want = vec![("sender", w.accts[u].clone()), ("withdrawn_share", amt.to_string())];
                if u != pr.acct {
                    want.push((
                        "refund_assets",
                        format!("{}, {}", show(w, pr.a[0], a[0].wrapping_sub(b[0])), show(w, pr.a[1], a[1].wrapping_sub(b[1]))),
                    ));
                }
                for (k, v) in want {
                    if e.get(k) != Some(&v) {
                        return Err(format!("pool {p} reported {k} {:?} instead of {v}", e.get(k)));
                    }
                }
                cx.count("withdrawal reports");
                cx.distinct(&format!("{amt}{a:?}{b:?}"));
            }
        }
        Ok(())
    }
}
