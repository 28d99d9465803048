//! The specification, executable: what each operation does to the balance sheet, computed with exact
//! numbers from the balances observed just before it.
use crate::big::{big, muldiv, ratio18, Big, E18};
use crate::world::{bin, dec_text, ExecOut, Snap, World};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum To {
    Default,
    Acct(usize),
    Bad(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    /// send `amt` of the token with the route attached; `owner`: from somebody else's account
    Send { asset: usize, amt: u128, owner: Option<usize> },
    /// call the router directly, with coins attached
    Direct { funds: Vec<(usize, u128)> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hook {
    Swap,
    Withdraw,
    Route,
    Garbage,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Swap { pair: usize, side: usize, who: usize, amt: u128, owner: Option<usize>, to: To, belief: Option<u128>, maxs: Option<u128> },
    Provide { pair: usize, who: usize, listed: [(usize, u128); 2], tol: Option<u128>, recv: To, funds: Vec<(usize, u128)> },
    Withdraw { pair: usize, who: usize, amt: u128, owner: Option<usize> },
    Route { who: usize, steps: Vec<(usize, usize)>, entry: Entry, min: Option<u128>, to: To },
    RouterStep { who: usize, step: (usize, usize), to: To, coins: bool },
    RouterAssert { who: usize, asset: usize, prev: u128, min: u128, receiver: usize },
    /// a user calls the notification entry of a pool or the router himself
    Forge { target: usize, who: usize, claim: usize, amt: u128, hook: Hook, steps: Vec<(usize, usize)> },
    /// a token transfer-with-notification carrying a hook that does not fit
    Misdirect { asset: usize, who: usize, target: usize, amt: u128, hook: Hook },
    /// swap or provide messages a pool does not offer
    NativeSwap { pair: usize, side: usize, who: usize, amt: u128 },
    Transfer { asset: usize, from: usize, to: To, amt: u128 },
    TransferFrom { asset: usize, spender: usize, owner: usize, to: To, amt: u128 },
    Burn { asset: usize, who: usize, amt: u128 },
    BurnFrom { asset: usize, who: usize, owner: usize, amt: u128 },
    Mint { asset: usize, who: usize, to: To, amt: u128 },
    Allow { asset: usize, owner: usize, spender: usize, amt: u128, up: bool, expires: Option<u64> },
    NewMinter { asset: usize, who: usize, to: Option<usize> },
    Blocks(u64),
    Admin(Admin),
}

/// what happens around the pools without moving a balance
#[derive(Clone, Debug, PartialEq)]
pub enum Admin {
    /// the owner registers other decimals for a coin
    Decimals { asset: usize, decimals: u8 },
    /// the owner changes the code used for new pools (to an identical one)
    Codes { pair: u64, token: u64 },
    /// anybody makes another pool
    NewPool { who: usize, a: [usize; 2], whitelist: Vec<usize>, mins: [u128; 2] },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rej {
    /// must be refused
    No(&'static str),
    /// the specification leaves open whether this is accepted
    Maybe(&'static str),
}
pub type R<T> = Result<T, Rej>;
use Rej::{Maybe, No};

#[derive(Clone, Debug, PartialEq)]
pub enum Receipt {
    Swap { pair: usize, side: usize, sender: usize, receiver: usize, offer: u128, ret: u128, spread: u128, comm: u128 },
    Provide { pair: usize, sender: usize, receiver: usize, listed: [(usize, u128); 2], share: u128 },
    Withdraw { pair: usize, sender: usize, share: u128, refunds: [u128; 2] },
}

/// (paid out, spread, commission) of an offer into reserves (before the offer)
pub fn swap_calc(o_pool: u128, a_pool: u128, offer: u128) -> Option<(u128, Big, u128)> {
    if o_pool == 0 {
        return None;
    }
    let gross = big(a_pool).mul(&big(offer)).div(&big(o_pool).add(&big(offer)));
    let price = ratio18(&big(a_pool), &big(o_pool));
    let before = big(offer).mul(&price).div(&big(E18));
    let spread = before.sat_sub(&gross);
    let gross = gross.u128().unwrap();
    let comm = muldiv(gross, 3, 1000).u128().unwrap();
    Some((gross - comm, spread, comm))
}

/// Some(loss) = the loss ratio in 18-digit atomics that a maximum spread is compared with (None: no
/// loss to compare); Err = left open (amounts that cannot be scaled, or no ratio).
pub fn loss_ratio(
    offer: u128,
    ret: u128,
    spread: &Big,
    belief: Option<u128>,
    dec_offer: u8,
    dec_ask: u8,
) -> Result<Option<Big>, &'static str> {
    let (mut o, mut r, mut s) = (big(offer), big(ret), spread.clone());
    let top = Big::pow2(128);
    if dec_offer > dec_ask {
        let d = (dec_offer - dec_ask) as u32;
        if d > 19 {
            return Err("decimals too far apart");
        }
        r = r.mul(&Big::pow10(d));
        s = s.mul(&Big::pow10(d));
    } else if dec_ask > dec_offer {
        let d = (dec_ask - dec_offer) as u32;
        if d > 19 {
            return Err("decimals too far apart");
        }
        o = o.mul(&Big::pow10(d));
    }
    if o >= top || r >= top || s >= top {
        return Err("amount too large to scale");
    }
    match belief {
        Some(0) => Err("belief price of zero"),
        Some(b) => {
            let exp = o.mul(&big(E18)).div(&big(b));
            if exp >= Big::pow2(196) {
                // the ratio's 18-digit numerator no longer fits the contract's 256 bits
                return Err("expectation too large");
            }
            if r < exp {
                Ok(Some(ratio18(&exp.sub(&r), &exp)))
            } else {
                Ok(None)
            }
        }
        None => {
            let t = r.add(&s);
            if t.is_zero() {
                return Err("no ratio");
            }
            Ok(Some(ratio18(&s, &t)))
        }
    }
}

/// true: within tolerance
pub fn slippage_ok(d: [u128; 2], p: [u128; 2], tol: u128) -> bool {
    let k = big(E18 - tol);
    let lhs = |a: u128, b: u128| ratio18(&big(a), &big(b)).mul(&k).div(&big(E18));
    !(lhs(d[0], d[1]) > ratio18(&big(p[0]), &big(p[1])) || lhs(d[1], d[0]) > ratio18(&big(p[1]), &big(p[0])))
}

pub struct Sim<'a> {
    pub w: &'a World,
    pub s: Snap,
    pub allow: BTreeMap<(usize, usize, usize), (u128, u64)>,
    pub receipts: Vec<Receipt>,
}

impl<'a> Sim<'a> {
    pub fn new(w: &'a World) -> Sim<'a> {
        Sim { w, s: w.snap.clone(), allow: BTreeMap::new(), receipts: vec![] }
    }
    fn evil(&self, a: usize) -> R<()> {
        if self.w.assets[a].evil {
            Err(Maybe("hostile token"))
        } else {
            Ok(())
        }
    }
    pub fn mv(&mut self, a: usize, from: usize, to: usize, n: u128) -> R<()> {
        self.evil(a)?;
        if self.s.bal[a][from] < n {
            return Err(No("balance too small"));
        }
        self.s.bal[a][from] -= n;
        self.s.bal[a][to] = self.s.bal[a][to].checked_add(n).ok_or(Maybe("balance over 128 bits"))?;
        Ok(())
    }
    /// a plain transfer: nothing is not transferable
    pub fn xfer(&mut self, a: usize, from: usize, to: usize, n: u128) -> R<()> {
        if n == 0 {
            return Err(No("transfer of nothing"));
        }
        self.mv(a, from, to, n)
    }
    fn allowance(&self, a: usize, owner: usize, spender: usize) -> (u128, u64) {
        match self.allow.get(&(a, owner, spender)) {
            Some(v) => *v,
            None => self.w.allowance(a, owner, spender),
        }
    }
    fn spend(&mut self, a: usize, owner: usize, spender: usize, n: u128) -> R<()> {
        self.evil(a)?;
        let (have, exp) = self.allowance(a, owner, spender);
        if exp != 0 && self.w.height() >= exp {
            return Err(No("allowance expired"));
        }
        if have < n {
            return Err(No("allowance too small"));
        }
        if have == 0 {
            return Err(Maybe("nothing out of an empty or absent allowance"));
        }
        self.allow.insert((a, owner, spender), (have - n, exp));
        Ok(())
    }
    fn to(&self, t: &To, default: usize) -> R<usize> {
        match t {
            To::Default => Ok(default),
            To::Acct(i) => Ok(*i),
            To::Bad(_) => Err(No("recipient is no address")),
        }
    }
    fn funds(&mut self, from: usize, to: usize, f: &[(usize, u128)]) -> R<()> {
        for (a, n) in f {
            self.xfer(*a, from, to, *n)?;
        }
        Ok(())
    }

    /// the offered amount has already arrived in the pool
    #[allow(clippy::too_many_arguments)]
    pub fn swap(
        &mut self,
        p: usize,
        side: usize,
        sender: usize,
        amt: u128,
        to: &To,
        belief: Option<u128>,
        maxs: Option<u128>,
    ) -> R<u128> {
        let pr = self.w.pairs[p].clone();
        let receiver = self.to(to, sender)?;
        let (oa, aa) = (pr.a[side], pr.a[1 - side]);
        self.evil(oa)?;
        self.evil(aa)?;
        let o_pool = self.s.bal[oa][pr.acct].checked_sub(amt).ok_or(No("offer never arrived"))?;
        let a_pool = self.s.bal[aa][pr.acct];
        let (ret, spread, comm) = swap_calc(o_pool, a_pool, amt).ok_or(Maybe("empty pool"))?;
        if let Some(m) = maxs {
            match loss_ratio(amt, ret, &spread, belief, pr.dec[side], pr.dec[1 - side]) {
                Err(e) => return Err(Maybe(e)),
                Ok(None) => {}
                Ok(Some(l)) => {
                    if l > big(m) {
                        return Err(No("loss over the maximum"));
                    }
                }
            }
        }
        let spread = spread.u128().ok_or(Maybe("spread over 128 bits"))?;
        if ret > 0 {
            self.xfer(aa, pr.acct, receiver, ret)?;
        }
        self.receipts.push(Receipt::Swap { pair: p, side, sender, receiver, offer: amt, ret, spread, comm });
        Ok(ret)
    }

    fn provide(
        &mut self,
        p: usize,
        who: usize,
        listed: &[(usize, u128); 2],
        tol: Option<u128>,
        recv: &To,
        funds: &[(usize, u128)],
    ) -> R<()> {
        let pr = self.w.pairs[p].clone();
        self.funds(who, pr.acct, funds)?;
        for (a, n) in listed {
            if self.w.is_native(*a) {
                let sent = funds.iter().find(|f| f.0 == *a).map_or(0, |f| f.1);
                if sent != *n {
                    return Err(No("declared and attached coins differ"));
                }
            }
        }
        let mut d = [0u128; 2];
        for i in 0..2 {
            d[i] = listed.iter().find(|l| l.0 == pr.a[i]).ok_or(No("an asset of the pool is missing"))?.1;
        }
        if pr.evil {
            return Err(Maybe("hostile token"));
        }
        let mut pool = [0u128; 2];
        for i in 0..2 {
            pool[i] = self.s.bal[pr.a[i]][pr.acct];
            if self.w.is_native(pr.a[i]) {
                pool[i] = pool[i].checked_sub(d[i]).ok_or(No("coins never arrived"))?;
            }
        }
        if let Some(t) = tol {
            if t > E18 {
                return Err(No("tolerance over one"));
            }
            if pool[0] > 0 && pool[1] > 0 {
                if d[0] == 0 || d[1] == 0 {
                    return Err(No("one-sided deposit"));
                }
                if !slippage_ok(d, pool, t) {
                    return Err(No("price beyond tolerance"));
                }
            }
        }
        let supply = self.s.supply[pr.lp];
        let share = if supply == 0 {
            if !pr.whitelist.contains(&who) {
                return Err(No("first provider not on the whitelist"));
            }
            if d[0] < pr.mins[0] || d[1] < pr.mins[1] {
                return Err(No("first deposit below the minimum"));
            }
            big(d[0]).mul(&big(d[1])).isqrt()
        } else {
            if pool[0] == 0 || pool[1] == 0 {
                return Err(Maybe("shares without reserves"));
            }
            {
                let (x, y) = (muldiv(d[0], supply, pool[0]), muldiv(d[1], supply, pool[1]));
                let top = Big::pow2(128);
                if (x >= top) != (y >= top) {
                    return Err(Maybe("one side is worth shares over 128 bits"));
                }
                x.min(y)
            }
        };
        if share.is_zero() {
            return Err(No("no share"));
        }
        let receiver = self.to(recv, who)?;
        for i in 0..2 {
            if !self.w.is_native(pr.a[i]) {
                self.spend(pr.a[i], who, pr.acct, d[i])?;
                self.mv(pr.a[i], who, pr.acct, d[i])?;
            }
        }
        let share = share.u128().ok_or(No("share over 128 bits"))?;
        self.s.supply[pr.lp] = supply.checked_add(share).ok_or(No("shares over 128 bits"))?;
        self.s.bal[pr.lp][receiver] = self.s.bal[pr.lp][receiver].saturating_add(share);
        self.receipts.push(Receipt::Provide { pair: p, sender: who, receiver, listed: *listed, share });
        Ok(())
    }

    /// the shares have already arrived in the pool
    fn withdraw(&mut self, p: usize, sender: usize, amt: u128) -> R<()> {
        let pr = self.w.pairs[p].clone();
        if pr.evil {
            return Err(Maybe("hostile token"));
        }
        let supply = self.s.supply[pr.lp];
        if supply == 0 {
            return Err(No("no shares"));
        }
        let r = ratio18(&big(amt), &big(supply));
        let mut refunds = [0u128; 2];
        for i in 0..2 {
            refunds[i] = big(self.s.bal[pr.a[i]][pr.acct]).mul(&r).div(&big(E18)).sat128();
        }
        for i in 0..2 {
            self.xfer(pr.a[i], pr.acct, sender, refunds[i])?;
        }
        if amt == 0 || self.s.bal[pr.lp][pr.acct] < amt {
            return Err(No("no shares"));
        }
        self.s.bal[pr.lp][pr.acct] -= amt;
        self.s.supply[pr.lp] = self.s.supply[pr.lp].saturating_sub(amt);
        self.receipts.push(Receipt::Withdraw { pair: p, sender, share: amt, refunds });
        Ok(())
    }

    pub fn find_pair(&self, a: usize, b: usize) -> Option<(usize, usize)> {
        for (i, p) in self.w.pairs.iter().enumerate() {
            if p.a == [a, b] {
                return Some((i, 0));
            }
            if p.a == [b, a] {
                return Some((i, 1));
            }
        }
        None
    }

    pub fn route(&mut self, sender: usize, steps: &[(usize, usize)], min: Option<u128>, to: &To) -> R<()> {
        let to = self.to(to, sender)?;
        if !route_shape_ok(steps) {
            return Err(No("not one output"));
        }
        let target = steps.last().unwrap().1;
        let prev = self.s.bal[target][to];
        for (i, st) in steps.iter().enumerate() {
            let last = i + 1 == steps.len();
            self.router_step(*st, if last { To::Acct(to) } else { To::Default })?;
        }
        if let Some(m) = min {
            let got = self.s.bal[target][to].checked_sub(prev).ok_or(No("recipient lost"))?;
            if got < m {
                return Err(No("less than the minimum"));
            }
        }
        Ok(())
    }

    fn router_step(&mut self, st: (usize, usize), to: To) -> R<()> {
        let router = self.w.router;
        let (p, side) = self.find_pair(st.0, st.1).ok_or(No("no such pool"))?;
        if self.w.is_native(st.0) {
            return Err(Maybe("native offer in a route"));
        }
        let amt = self.s.bal[st.0][router];
        self.xfer(st.0, router, self.w.pairs[p].acct, amt)?;
        self.swap(p, side, router, amt, &to, None, None)?;
        Ok(())
    }

    /// what the target of a token notification does; the tokens have arrived
    fn notify(&mut self, target: usize, token: usize, sender: usize, amt: u128, hook: &Hook) -> R<()> {
        let p = match self.w.pairs.iter().position(|p| p.acct == target) {
            Some(p) => p,
            None => return Err(No("target takes no such message")),
        };
        let pr = &self.w.pairs[p];
        match hook {
            Hook::Swap => {
                let side = pr.a.iter().position(|a| *a == token).ok_or(No("not a token of the pool"))?;
                self.swap(p, side, sender, amt, &To::Default, None, None)?;
                Ok(())
            }
            Hook::Withdraw => {
                if pr.lp != token {
                    return Err(No("not the share token of the pool"));
                }
                self.withdraw(p, sender, amt)
            }
            _ => Err(No("unknown hook")),
        }
    }

    pub fn apply(&mut self, op: &Op) -> R<()> {
        match op {
            Op::Swap { pair, side, who, amt, owner, to, belief, maxs } => {
                let pr = self.w.pairs[*pair].clone();
                self.send(pr.a[*side], *who, *owner, pr.acct, *amt)?;
                self.swap(*pair, *side, *who, *amt, to, *belief, *maxs)?;
                Ok(())
            }
            Op::Provide { pair, who, listed, tol, recv, funds } => {
                self.provide(*pair, *who, listed, *tol, recv, funds)
            }
            Op::Withdraw { pair, who, amt, owner } => {
                let pr = self.w.pairs[*pair].clone();
                self.send(pr.lp, *who, *owner, pr.acct, *amt)?;
                self.withdraw(*pair, *who, *amt)
            }
            Op::Route { who, steps, entry, min, to } => {
                match entry {
                    Entry::Send { asset, amt, owner } => {
                        self.send(*asset, *who, *owner, self.w.router, *amt)?
                    }
                    Entry::Direct { funds } => self.funds(*who, self.w.router, funds)?,
                }
                self.route(*who, steps, *min, to)
            }
            Op::RouterStep { .. } => Err(No("internal step called from outside")),
            Op::RouterAssert { asset, prev, min, receiver, .. } => {
                let got = self.s.bal[*asset][*receiver].checked_sub(*prev).ok_or(No("lost"))?;
                if got < *min {
                    return Err(No("less than the minimum"));
                }
                Ok(())
            }
            Op::Forge { target, who, claim, hook, steps, .. } => {
                // the router lets anybody route what it happens to hold
                if *target == self.w.router && *hook == Hook::Route {
                    let _ = who;
                    return self.route(*claim, steps, None, &To::Default);
                }
                Err(No("notification not from a token of the pool"))
            }
            Op::Misdirect { asset, who, target, amt, hook } => {
                if self.w.assets[*asset].evil {
                    return Err(Maybe("hostile token"));
                }
                self.xfer(*asset, *who, *target, *amt)?;
                self.notify(*target, *asset, *who, *amt, hook)
            }
            Op::NativeSwap { .. } => Err(Maybe("swap by attached coins")),
            Op::Transfer { asset, from, to, amt } => {
                let t = self.to(to, *from)?;
                self.xfer(*asset, *from, t, *amt)
            }
            Op::TransferFrom { asset, spender, owner, to, amt } => {
                let t = self.to(to, *spender)?;
                self.spend(*asset, *owner, *spender, *amt)?;
                self.mv(*asset, *owner, t, *amt)
            }
            Op::Burn { asset, who, amt } => {
                self.evil(*asset)?;
                if *amt == 0 || self.s.bal[*asset][*who] < *amt {
                    return Err(No("balance too small"));
                }
                self.s.bal[*asset][*who] -= amt;
                self.s.supply[*asset] = self.s.supply[*asset].saturating_sub(*amt);
                Ok(())
            }
            Op::BurnFrom { asset, who, owner, amt } => {
                self.spend(*asset, *owner, *who, *amt)?;
                if self.s.bal[*asset][*owner] < *amt {
                    return Err(No("balance too small"));
                }
                self.s.bal[*asset][*owner] -= amt;
                self.s.supply[*asset] = self.s.supply[*asset].saturating_sub(*amt);
                Ok(())
            }
            Op::Mint { asset, who, to, amt } => {
                self.evil(*asset)?;
                let a = &self.w.assets[*asset];
                if *amt == 0 || a.minter != Some(*who) {
                    return Err(No("not the minter"));
                }
                let t = self.to(to, *who)?;
                let n = self.s.supply[*asset].checked_add(*amt).ok_or(No("supply over 128 bits"))?;
                if a.cap.map_or(false, |c| n > c) {
                    return Err(No("over the cap"));
                }
                self.s.supply[*asset] = n;
                self.s.bal[*asset][t] = self.s.bal[*asset][t].saturating_add(*amt);
                Ok(())
            }
            Op::Allow { asset, owner, spender, amt, up, expires } => {
                self.evil(*asset)?;
                if owner == spender {
                    return Err(No("own account"));
                }
                let (have, exp) = self.allowance(*asset, *owner, *spender);
                let expired = expires.map_or(false, |e| e != 0 && self.w.height() >= e);
                if *up {
                    if expired {
                        return Err(No("expired"));
                    }
                    let n = have.checked_add(*amt).ok_or(No("allowance over 128 bits"))?;
                    self.allow.insert((*asset, *owner, *spender), (n, expires.unwrap_or(exp)));
                } else {
                    if have == 0 {
                        return Err(Maybe("no allowance to lower"));
                    }
                    if *amt < have {
                        if expired {
                            return Err(No("expired"));
                        }
                        self.allow.insert((*asset, *owner, *spender), (have - amt, expires.unwrap_or(exp)));
                    } else {
                        self.allow.insert((*asset, *owner, *spender), (0, 0));
                    }
                }
                Ok(())
            }
            Op::NewMinter { asset, who, .. } => {
                self.evil(*asset)?;
                if self.w.assets[*asset].minter != Some(*who) {
                    return Err(No("not the minter"));
                }
                Ok(())
            }
            Op::Blocks(_) => Ok(()),
            Op::Admin(Admin::NewPool { a, .. }) if a[0] == a[1] || self.find_pair(a[0], a[1]).is_some() => Err(No("no new pair")),
            Op::Admin(_) => Ok(()),
        }
    }

    /// tokens reach a contract with a notification: by their holder, or by an approved spender
    fn send(&mut self, a: usize, who: usize, owner: Option<usize>, to: usize, n: u128) -> R<()> {
        self.evil(a)?;
        match owner {
            None => self.xfer(a, who, to, n),
            Some(o) => {
                self.spend(a, o, who, n)?;
                self.mv(a, o, to, n)
            }
        }
    }
}

/// exactly one asset is left over when every step consumes its offer and yields its ask
pub fn route_shape_ok(steps: &[(usize, usize)]) -> bool {
    let mut left = std::collections::BTreeSet::new();
    for (o, a) in steps {
        left.remove(o);
        left.insert(*a);
    }
    left.len() == 1
}

// ---------------------------------------------------------------- running an operation for real

fn to_json(w: &World, t: &To) -> Value {
    match t {
        To::Default => Value::Null,
        To::Acct(i) => json!(w.accts[*i]),
        To::Bad(s) => json!(s),
    }
}
fn to_plain(w: &World, t: &To, d: usize) -> String {
    match t {
        To::Default => w.accts[d].clone(),
        To::Acct(i) => w.accts[*i].clone(),
        To::Bad(s) => s.clone(),
    }
}
pub fn steps_json(w: &World, steps: &[(usize, usize)]) -> Value {
    steps
        .iter()
        .map(|(o, a)| json!({"halo_swap": {"offer_asset_info": w.info(*o), "ask_asset_info": w.info(*a)}}))
        .collect()
}
fn hook_json(w: &World, h: &Hook, steps: &[(usize, usize)]) -> Value {
    match h {
        Hook::Swap => json!({"swap": {}}),
        Hook::Withdraw => json!({"withdraw_liquidity": {}}),
        Hook::Route => json!({"execute_swap_operations": {"operations": steps_json(w, steps)}}),
        Hook::Garbage => json!({"collect": {}}),
    }
}
fn send_json(w: &World, to: usize, owner: Option<usize>, amt: u128, hook: &Value) -> Value {
    match owner {
        None => json!({"send": {"contract": w.accts[to], "amount": amt.to_string(), "msg": bin(hook)}}),
        Some(o) => {
            json!({"send_from": {"owner": w.accts[o], "contract": w.accts[to], "amount": amt.to_string(), "msg": bin(hook)}})
        }
    }
}

pub fn run(w: &mut World, op: &Op) -> ExecOut {
    let name = |w: &World, a: usize| w.assets[a].name.clone();
    match op {
        Op::Swap { pair, side, who, amt, owner, to, belief, maxs } => {
            let pr = w.pairs[*pair].clone();
            let hook = json!({"swap": {"belief_price": belief.map(dec_text), "max_spread": maxs.map(dec_text), "to": to_json(w, to)}});
            let m = send_json(w, pr.acct, *owner, *amt, &hook);
            let t = name(w, pr.a[*side]);
            w.exec(*who, &t, &m, &[])
        }
        Op::Provide { pair, who, listed, tol, recv, funds } => {
            let m = json!({"provide_liquidity": {
                "assets": [w.asset(listed[0].0, listed[0].1), w.asset(listed[1].0, listed[1].1)],
                "slippage_tolerance": tol.map(dec_text), "receiver": to_json(w, recv)}});
            let p = w.pair_addr(*pair);
            w.exec(*who, &p, &m, funds)
        }
        Op::Withdraw { pair, who, amt, owner } => {
            let pr = w.pairs[*pair].clone();
            let m = send_json(w, pr.acct, *owner, *amt, &json!({"withdraw_liquidity": {}}));
            let t = name(w, pr.lp);
            w.exec(*who, &t, &m, &[])
        }
        Op::Route { who, steps, entry, min, to } => {
            let body = json!({"execute_swap_operations": {"operations": steps_json(w, steps),
                "minimum_receive": min.map(|m| m.to_string()), "to": to_json(w, to)}});
            match entry {
                Entry::Send { asset, amt, owner } => {
                    let m = send_json(w, w.router, *owner, *amt, &body);
                    let t = name(w, *asset);
                    w.exec(*who, &t, &m, &[])
                }
                Entry::Direct { funds } => {
                    let r = w.accts[w.router].clone();
                    w.exec(*who, &r, &body, funds)
                }
            }
        }
        Op::RouterStep { who, step, to, coins } => {
            // some of the offered coin attached, or of any other that the caller has
            let mut f = vec![];
            if *coins {
                let mut c: Vec<usize> = (0..w.assets.len()).filter(|a| w.is_native(*a) && w.snap.bal[*a][*who] > 0).collect();
                c.sort_by_key(|a| *a != step.0);
                f = c.first().map(|a| (*a, w.snap.bal[*a][*who] / 1000 + 1)).into_iter().collect();
            }
            let st = steps_json(w, &[*step])[0].clone();
            let m = json!({"execute_swap_operation": {"operation": st, "to": to_json(w, to)}});
            let r = w.accts[w.router].clone();
            w.exec(*who, &r, &m, &f)
        }
        Op::RouterAssert { who, asset, prev, min, receiver } => {
            let m = json!({"assert_minimum_receive": {"asset_info": w.info(*asset), "prev_balance": prev.to_string(),
                "minimum_receive": min.to_string(), "receiver": w.accts[*receiver]}});
            let r = w.accts[w.router].clone();
            w.exec(*who, &r, &m, &[])
        }
        Op::Forge { target, who, claim, amt, hook, steps } => {
            let h = hook_json(w, hook, steps);
            let m = json!({"receive": {"sender": w.accts[*claim], "amount": amt.to_string(), "msg": bin(&h)}});
            let t = w.accts[*target].clone();
            w.exec(*who, &t, &m, &[])
        }
        Op::Misdirect { asset, who, target, amt, hook } => {
            let h = hook_json(w, hook, &[]);
            let m = send_json(w, *target, None, *amt, &h);
            let t = name(w, *asset);
            w.exec(*who, &t, &m, &[])
        }
        Op::NativeSwap { pair, side, who, amt } => {
            let pr = w.pairs[*pair].clone();
            let a = pr.a[*side];
            let m = json!({"swap": {"offer_asset": w.asset(a, *amt)}});
            let p = w.pair_addr(*pair);
            let f = if w.is_native(a) { vec![(a, *amt)] } else { vec![] };
            w.exec(*who, &p, &m, &f)
        }
        Op::Transfer { asset, from, to, amt } => {
            let t = to_plain(w, to, *from);
            if w.is_native(*asset) {
                let denom = name(w, *asset);
                w.exec_raw(
                    *from,
                    cosmwasm_std::CosmosMsg::Bank(cosmwasm_std::BankMsg::Send {
                        to_address: t,
                        amount: vec![cosmwasm_std::Coin { denom, amount: (*amt).into() }],
                    }),
                )
            } else {
                let m = json!({"transfer": {"recipient": t, "amount": amt.to_string()}});
                let n = name(w, *asset);
                w.exec(*from, &n, &m, &[])
            }
        }
        Op::TransferFrom { asset, spender, owner, to, amt } => {
            let t = to_plain(w, to, *spender);
            let m = json!({"transfer_from": {"owner": w.accts[*owner], "recipient": t, "amount": amt.to_string()}});
            let n = name(w, *asset);
            w.exec(*spender, &n, &m, &[])
        }
        Op::Burn { asset, who, amt } => {
            let n = name(w, *asset);
            w.exec(*who, &n, &json!({"burn": {"amount": amt.to_string()}}), &[])
        }
        Op::BurnFrom { asset, who, owner, amt } => {
            let n = name(w, *asset);
            let m = json!({"burn_from": {"owner": w.accts[*owner], "amount": amt.to_string()}});
            w.exec(*who, &n, &m, &[])
        }
        Op::Mint { asset, who, to, amt } => {
            let n = name(w, *asset);
            let m = json!({"mint": {"recipient": to_plain(w, to, *who), "amount": amt.to_string()}});
            w.exec(*who, &n, &m, &[])
        }
        Op::Allow { asset, owner, spender, amt, up, expires } => {
            let n = name(w, *asset);
            let k = if *up { "increase_allowance" } else { "decrease_allowance" };
            let mut b = json!({"spender": w.accts[*spender], "amount": amt.to_string()});
            if let Some(e) = expires {
                b["expires"] = w.expiry(*e);
            }
            let mut m = serde_json::Map::new();
            m.insert(k.into(), b);
            w.exec(*owner, &n, &Value::Object(m), &[])
        }
        Op::NewMinter { asset, who, to } => {
            let n = name(w, *asset);
            let m = json!({"update_minter": {"new_minter": to.map(|t| w.accts[t].clone())}});
            w.exec(*who, &n, &m, &[])
        }
        Op::Admin(a) => {
            let f = w.accts[w.factory].clone();
            match a {
                Admin::Decimals { asset, decimals } => {
                    let m = json!({"add_native_token_decimals": {"denom": name(w, *asset), "decimals": decimals}});
                    w.exec(w.owner, &f, &m, &[])
                }
                Admin::Codes { pair, token } => w.exec(w.owner, &f, &json!({"update_config": {"pair_code_id": pair, "token_code_id": token}}), &[]),
                Admin::NewPool { who, a, whitelist, mins } => {
                    let m = w.create_pair_msg(*a, whitelist, *mins);
                    w.exec(*who, &f, &m, &[])
                }
            }
        }
        Op::Blocks(n) => {
            w.advance(*n);
            ExecOut {
                res: Ok(vec![]),
                touched: Default::default(),
                writes: 0,
                hops: vec![],
                msgs: 0,
                queries: 0,
                panicked: false,
                trace: vec![],
                fired: false,
            }
        }
    }
}
