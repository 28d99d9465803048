//! The token: what can be created, and the ledger afterwards.
use crate::check::{Cx, V};
use crate::engine::{accept, sheet_diff, unchanged_if_refused, Mon, Step};
use crate::gen::{self, Profile};
use crate::rng::Rng;
use crate::sim::Op;
use crate::world::{num, World, CODE_TOKEN, CODE_TOKEN2};
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn name(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "a".repeat(r.pick(&[2, 3, 4])),
        1 => "b".repeat(r.pick(&[49, 50, 51])),
        2 => "\u{e9}".repeat(r.pick(&[1, 2, 25, 26])),
        3 => "\u{1f600}".repeat(r.pick(&[1, 12, 13])),
        4 => r.pick(&["", "  ", "   ", "a b", "\u{e9}a", "\u{20ac}"]).to_string(),
        _ => "a token".into(),
    }
}
fn symbol(r: &mut Rng) -> String {
    let base = |r: &mut Rng, n: u64| -> String { (0..n).map(|_| r.pick(&['a', 'z', 'A', 'Z', '-', 'm'])).collect() };
    match r.below(8) {
        0 => {
            let n = r.range(0, 3);
            base(r, n)
        }
        1 => {
            let n = r.range(11, 14);
            base(r, n)
        }
        2 => {
            let n = r.range(2, 11);
            let mut s = base(r, n);
            let at = r.idx(s.len() + 1);
            s.insert(at, r.pick(&['@', '[', '`', '{', '0', '9', ' ', '_', '.', ',', '\u{e9}', '+', '/', '\u{17f}', '~', '\0']));
            s
        }
        _ => {
            let n = r.range(3, 12);
            base(r, n)
        }
    }
}

/// P26
pub fn creation(cx: &mut Cx) -> V {
    let mut w = World::new(&[]);
    w.start(&mut cx.r);
    let good = w.accts.clone();
    for _ in 0..25 {
        let r = &mut cx.r;
        let (n, s) = (name(r), symbol(r));
        let d = match r.below(6) {
            0 => r.pick(&[17u64, 18, 19, 20, 255, 256]),
            _ => r.below(19),
        };
        let mut bals: Vec<(String, u128)> = vec![];
        for _ in 0..r.pick(&[0u64, 1, 1, 2, 3, 5, 8]) {
            let a = if r.chance(1, 25) {
                r.pick(&["", "x", "ab", "AURA1ALICE0000000000000000000000000000000AA"]).to_string()
            } else if r.chance(1, 20) && !bals.is_empty() {
                r.pick(&bals).0
            } else {
                let left: Vec<String> = good.iter().filter(|g| !bals.iter().any(|b| b.0 == **g)).cloned().collect();
                if left.is_empty() {
                    break;
                }
                r.pick(&left)
            };
            let v = if r.chance(1, 12) { u128::MAX - r.below(3) as u128 } else { r.log(126) };
            bals.push((a, v));
        }
        if r.chance(1, 12) {
            // a long list
            for i in 0..r.range(10, 60) {
                bals.push((format!("aura1holder{:030}", i), r.log(110)));
            }
            r.shuffle(&mut bals);
        }
        let total = bals.iter().try_fold(0u128, |t, b| t.checked_add(b.1));
        let minter = if r.chance(1, 2) {
            Some(if r.chance(1, 12) { r.pick(&["", "y", "AURA1BOB000000000000000000000000000000000BB"]).to_string() } else { r.pick(&good) })
        } else {
            None
        };
        let cap = if r.chance(2, 3) {
            let t = total.unwrap_or(u128::MAX);
            Some(match r.below(5) {
                0 => t,
                1 => t.saturating_sub(1),
                2 => t.saturating_add(1),
                3 => 0,
                _ => r.log(128),
            })
        } else {
            None
        };
        let addr_ok = |a: &String| a.len() >= 3 && a.len() <= 90 && a.to_lowercase() == *a;
        let mut dup: Vec<&String> = bals.iter().map(|b| &b.0).collect();
        dup.sort();
        dup.dedup();
        let nb = n.len();
        let why = if !(3..=50).contains(&nb) {
            Some("the name is not of 3 to 50 bytes")
        } else if !(3..=12).contains(&s.len()) || !s.bytes().all(|b| b == b'-' || b.is_ascii_alphabetic()) {
            Some("the symbol is not of 3 to 12 letters and hyphens")
        } else if d > 18 {
            Some("more than 18 decimals")
        } else if bals.iter().any(|b| !addr_ok(&b.0)) {
            Some("an initial account is no address")
        } else if dup.len() != bals.len() {
            Some("an initial account is listed twice")
        } else if total.is_none() {
            Some("the initial supply does not fit")
        } else if minter.is_some() && cap.map_or(false, |c| total.unwrap() > c) {
            Some("the initial supply is over the cap")
        } else if minter.as_ref().map_or(false, |m| !addr_ok(m)) {
            Some("the minter is no address")
        } else {
            None
        };
        let rows: Vec<Value> = bals.iter().map(|b| json!({"address": b.0, "amount": b.1.to_string()})).collect();
        let mint = match &minter {
            None => Value::Null,
            Some(m) => json!({"minter": m, "cap": cap.map(|c| c.to_string())}),
        };
        let msg = json!({"name": n, "symbol": s, "decimals": d, "initial_balances": rows, "mint": mint});
        cx.note(format!("create {msg}"));
        let f = w.fork();
        let code = cx.r.pick(&[CODE_TOKEN, CODE_TOKEN2]);
        let by = cx.r.idx(w.users);
        let got = w.instantiate(by, code, &msg, None);
        cx.eval();
        match (why, got) {
            (Some(why), Ok(_)) => return Err(format!("a token was created although {why}: {msg}")),
            (Some(why), Err(_)) => {
                cx.count(&format!("refused: {why}"));
                if !w.same_state(&f) {
                    return Err(format!("a refused token left something behind: {msg}"));
                }
            }
            (None, Err(e)) => return Err(format!("a valid token was refused ({e}): {msg}")),
            (None, Ok(a)) => {
                cx.count("created");
                cx.distinct(&msg.to_string());
                cx.sample(|| msg.to_string());
                let t = w.accts[a].clone();
                let info = w.ask(&t, &json!({"token_info": {}}))?;
                let want = json!({"name": n, "symbol": s, "decimals": d, "total_supply": total.unwrap().to_string()});
                if info != want {
                    return Err(format!("the token states {info} instead of {want}"));
                }
                for g in good.iter().chain(bals.iter().map(|b| &b.0)) {
                    let b = num(&w.ask(&t, &json!({"balance": {"address": g}}))?["balance"]);
                    let want = bals.iter().find(|x| x.0 == *g).map_or(0, |x| x.1);
                    if b != want {
                        return Err(format!("{g} starts with {b} instead of {want}"));
                    }
                }
                let m = w.ask(&t, &json!({"minter": {}}))?;
                if m != mint {
                    return Err(format!("the token states the minter {m} instead of {mint}"));
                }
                // and the cap binds from the start
                if let (Some(m), Some(_)) = (&minter, cap) {
                    let room = cap.unwrap() - total.unwrap();
                    let who = w.ix[m];
                    let over = w.exec(who, &t, &json!({"mint": {"recipient": good[0], "amount": (room.saturating_add(1)).to_string()}}), &[]);
                    if over.ok() {
                        return Err(format!("minting {room} + 1 succeeded with a room of {room}"));
                    }
                    if room > 0 {
                        let fill = w.exec(who, &t, &json!({"mint": {"recipient": good[0], "amount": room.to_string()}}), &[]);
                        if !fill.ok() {
                            return Err(format!("minting up to the cap was refused: {}", fill.err()));
                        }
                    }
                    cx.count("caps reached");
                } else if minter.is_none() {
                    let o = w.exec(by, &t, &json!({"mint": {"recipient": good[0], "amount": "1"}}), &[]);
                    if o.ok() {
                        return Err("a token without a minter was minted".into());
                    }
                }
            }
        }
    }
    Ok(())
}

/// P27
#[derive(Default)]
pub struct Ledger {
    facts: Vec<Value>,
    /// (token, owner, spender) -> (amount, expiry), kept from what the operations should have done
    table: Table,
}
type Table = BTreeMap<(usize, usize, usize), (u128, u64)>;

fn table(w: &World, toks: &[usize]) -> Table {
    let mut t = Table::new();
    for a in toks {
        if w.is_native(*a) || w.assets[*a].evil {
            continue;
        }
        for o in 0..w.users {
            for s in 0..w.accts.len() {
                let v = w.allowance(*a, o, s);
                if v.0 > 0 {
                    t.insert((*a, o, s), v);
                }
            }
        }
    }
    t
}
impl Mon for Ledger {
    fn profile(&mut self, _: &mut Cx, p: &mut Profile) {
        *p = Profile { swap: 3, provide: 3, withdraw: 3, route: 2, forge: 3, transfer: 20, ledger: 60, max_pairs: 2, max_natives: 1, ..p.clone() };
    }
    fn start(&mut self, _: &mut Cx, w: &mut World) -> V {
        self.facts = (0..w.assets.len())
            .map(|a| if w.is_native(a) { Value::Null } else { w.ask(&w.assets[a].name, &json!({"token_info": {}})).unwrap_or_default() })
            .collect();
        self.table = table(w, &(0..w.assets.len()).collect::<Vec<_>>());
        Ok(())
    }
    fn gen(&mut self, cx: &mut Cx, w: &World, p: &Profile) -> Op {
        gen::op(&mut cx.r, w, p)
    }
    fn after(&mut self, cx: &mut Cx, w: &mut World, st: &Step) -> V {
        for a in self.facts.len()..w.assets.len() {
            let v = w.ask(&w.assets[a].name, &json!({"token_info": {}})).unwrap_or_default();
            self.facts.push(v);
        }
        unchanged_if_refused(w, st)?;
        if cx.r.chance(1, 12) {
            // nobody was ever appointed to keep marketing information
            let toks: Vec<usize> = (0..w.assets.len()).filter(|a| !w.is_native(*a) && !w.assets[*a].evil).collect();
            let t = w.assets[cx.r.pick(&toks)].name.clone();
            let who = cx.r.idx(w.accts.len());
            let m = match cx.r.below(3) {
                0 => json!({"upload_logo": {"url": "https://x.example/l.png"}}),
                1 => json!({"update_marketing": {"project": "p", "marketing": w.accts[who]}}),
                _ => json!({"update_marketing": {"marketing": ""}}),
            };
            let f = w.fork();
            let o = w.exec(who, &t, &m, &[]);
            cx.eval();
            cx.count("marketing information refused");
            if o.ok() || !w.same_state(&f) {
                return Err(format!("{} had {m} accepted or changed something", w.accts[who]));
            }
        }
        if st.out.ok() {
            if st.open() {
                self.table = table(w, &(0..w.assets.len()).collect::<Vec<_>>());
            } else {
                for (k, v) in &st.allow {
                    if v.0 > 0 {
                        self.table.insert(*k, *v);
                    } else {
                        self.table.remove(k);
                    }
                }
            }
        }
        let asset = match &st.op {
            Op::Transfer { asset, .. } if !w.is_native(*asset) => *asset,
            Op::TransferFrom { asset, .. }
            | Op::Burn { asset, .. }
            | Op::BurnFrom { asset, .. }
            | Op::Mint { asset, .. }
            | Op::Allow { asset, .. }
            | Op::NewMinter { asset, .. } => *asset,
            _ => return Ok(()),
        };
        cx.eval();
        accept(st)?;
        if st.open() {
            return Ok(());
        }
        cx.count(if st.out.ok() { "ledger operations accepted" } else { "ledger operations refused" });
        if !st.out.ok() {
            return Ok(());
        }
        let d = sheet_diff(w, &w.snap, &st.want);
        if !d.is_empty() {
            return Err(format!("wrong effect: {}", d.join("; ")));
        }
        for ((a, o, s), (n, e)) in &st.allow {
            let got = w.allowance(*a, *o, *s);
            if got != (*n, *e) {
                return Err(format!("{} may spend {got:?} of {} instead of {:?}", w.accts[*s], w.accts[*o], (n, e)));
            }
            cx.count("allowances checked");
        }
        cx.distinct(&format!("{:?}{:?}", st.op, st.want.bal[asset]));
        cx.sample(|| format!("{:?}", st.op));
        self.facts_of(cx, w, asset)
    }
    fn finish(&mut self, cx: &mut Cx, w: &mut World) -> V {
        let now = table(w, &(0..w.assets.len()).collect::<Vec<_>>());
        if let Some(k) = now.keys().chain(self.table.keys()).find(|k| now.get(k) != self.table.get(k)) {
            return Err(format!("{} may spend {:?} of {} of {}, after all that happened it should be {:?}",
                w.accts[k.2], now.get(k), w.assets[k.0].name, w.accts[k.1], self.table.get(k)));
        }
        for _ in 0..now.len() {
            cx.count("standing allowances compared");
        }
        // and the token lists them
        for a in 0..w.assets.len() {
            if w.is_native(a) {
                continue;
            }
            for o in 0..w.users {
                let mut seen: Table = Table::new();
                let mut last = Value::Null;
                loop {
                    let n = cx.r.range(1, 4);
                    let v = w.ask(&w.assets[a].name, &json!({"all_allowances": {"owner": w.accts[o], "start_after": last, "limit": n}}))?;
                    let rows = v["allowances"].as_array().cloned().unwrap_or_default();
                    for x in &rows {
                        let n = (num(&x["allowance"]), w.expiry_height(&x["expires"]));
                        if let Some(s) = x["spender"].as_str().and_then(|s| w.ix.get(s)) {
                            if n.0 > 0 {
                                seen.insert((a, o, *s), n);
                            }
                        }
                    }
                    match rows.last() {
                        Some(x) => last = x["spender"].clone(),
                        None => break,
                    }
                }
                let want: Table = now.iter().filter(|(k, _)| k.0 == a && k.1 == o).map(|(k, v)| (*k, *v)).collect();
                if seen != want {
                    return Err(format!("{} lists the allowances {seen:?} of {} instead of {want:?}", w.assets[a].name, w.accts[o]));
                }
            }
        }
        for a in 0..w.assets.len() {
            if !w.is_native(a) {
                self.facts_of(cx, w, a)?;
                // the listed holders hold the whole supply
                let mut all: Vec<String> = vec![];
                loop {
                    let v = w.ask(&w.assets[a].name, &json!({"all_accounts": {"start_after": all.last(), "limit": 30}}))?;
                    let page: Vec<String> = v["accounts"].as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
                    if page.is_empty() {
                        break;
                    }
                    all.extend(page);
                }
                let sum: u128 = all.iter().map(|h| w.token_balance(&w.assets[a].name, h)).fold(0, |x, y| x.saturating_add(y));
                if sum != w.snap.supply[a] {
                    return Err(format!("the holders of {} hold {sum} of {}", w.assets[a].name, w.snap.supply[a]));
                }
                cx.count("supplies added up");
            }
        }
        Ok(())
    }
}
impl Ledger {
    fn facts_of(&self, cx: &mut Cx, w: &World, a: usize) -> V {
        cx.eval();
        let t = &w.assets[a];
        let mut v = w.ask(&t.name, &json!({"token_info": {}}))?;
        v["total_supply"] = self.facts[a]["total_supply"].clone();
        if v != self.facts[a] {
            return Err(format!("the token now states {v} instead of {}", self.facts[a]));
        }
        let m = w.ask(&t.name, &json!({"minter": {}}))?;
        let want = match t.minter {
            None => Value::Null,
            Some(m) => json!({"minter": w.accts[m], "cap": t.cap.map(|c| c.to_string())}),
        };
        if m != want {
            return Err(format!("the token states the minter {m} instead of {want}"));
        }
        Ok(())
    }
}
