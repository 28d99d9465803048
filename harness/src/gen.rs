//! Random worlds and random operations, aware of the current balances: amounts sit on and around the
//! values at which the specification changes its answer.
use crate::big::{big, muldiv, ratio18, E18};
use crate::rng::Rng;
use crate::sim::{loss_ratio, Admin, swap_calc, Entry, Hook, Op, Sim, To};
use crate::world::{Kind, World, CODE_PAIR, CODE_PAIR2, CODE_TOKEN, CODE_TOKEN2};
use serde_json::json;

#[derive(Clone, Debug)]
pub struct Profile {
    pub swap: u64,
    pub guard: u64, // percent of swaps with a guard
    pub provide: u64,
    pub withdraw: u64,
    pub route: u64,
    pub router_misc: u64,
    pub forge: u64,
    pub transfer: u64,
    pub ledger: u64, // allowances, burns, mints
    pub max_pairs: u64,
    pub max_tokens: u64,
    pub max_natives: u64,
    pub tol: u64,     // percent of provisions with a tolerance
    pub mess: u64,    // percent of provisions with tampered coins or assets
    pub init: u64,    // percent of pools initialised at the start
    pub steps: u64,
    pub huge_decimals: bool,
    pub admin: u64,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            swap: 30,
            guard: 35,
            provide: 16,
            withdraw: 12,
            route: 8,
            router_misc: 1,
            forge: 3,
            transfer: 5,
            ledger: 4,
            max_pairs: 4,
            max_tokens: 4,
            max_natives: 2,
            tol: 30,
            mess: 12,
            init: 85,
            steps: 60,
            huge_decimals: true,
            admin: 1,
        }
    }
}

pub const DENOMS: [&str; 11] = [
    "uaura",
    "uusd",
    "ibc/27394fb0",
    "aaave",
    "uatom",
    "factory/x/y",
    "uusdc",
    "UUSD",
    "ibc/27394FB0",
    "factory/aura1alice0000000000000000000000000000000aa/uhalo",
    "ibc/0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF",
];

pub fn world(r: &mut Rng, p: &Profile) -> Result<World, String> {
    let nn = r.below(p.max_natives + 1) as usize;
    let nt = r.range(2, p.max_tokens.max(2)) as usize;
    let mut denoms: Vec<&str> = DENOMS.to_vec();
    r.shuffle(&mut denoms);
    if r.chance(1, 10) {
        // a coin that is called like one of the tokens
        denoms[0] = r.pick(&["contract2", "contract3", "contract4", "contract6", "aura1bob000000000000000000000000000000000bb"]);
    }
    let mut denoms: Vec<String> = denoms.iter().map(|d| d.to_string()).collect();
    if r.chance(1, 8) {
        // a coin whose name begins with another's
        denoms[1] = format!("{}{}", denoms[0], r.pick(&["x", "/y", "0"]));
    }
    let scale = |r: &mut Rng| -> u128 {
        match r.below(6) {
            0 => 10u128.pow(r.range(1, 12) as u32),
            1 => 10u128.pow(r.range(12, 30) as u32),
            2 => 1u128 << 124,
            3 => 1u128 << r.range(8, 124),
            _ => 10u128.pow(r.range(9, 24) as u32),
        }
    };
    let natives: Vec<(String, u128)> = denoms[..nn].iter().map(|d| (d.to_string(), scale(r))).collect();
    let mut w = World::new(&natives);
    w.start(r);
    w.deploy()?;
    for i in 0..nn {
        let d = if p.huge_decimals && r.chance(1, 8) {
            r.pick(&[0u8, 19, 20, 24, 30, 255])
        } else {
            r.pick(&[6u8, 6, 6, 8, 18, 0])
        };
        w.register_native(i, d)?;
    }
    for _ in 0..nt {
        let d = r.pick(&[0u8, 2, 6, 6, 6, 8, 9, 12, 18, 18, 18]);
        let each = scale(r);
        let minter = if r.chance(1, 3) { Some(r.idx(w.users)) } else { None };
        let cap = if minter.is_some() && r.chance(1, 2) {
            Some((each * 8).saturating_add(r.log(100)))
        } else {
            None
        };
        w.token(d, each, minter, cap)?;
    }
    // pools over distinct unordered pairs of assets; some pools over the share token of another
    let np = r.range(1, p.max_pairs) as usize;
    let mut tries = 0;
    while w.pairs.len() < np && tries < 30 {
        tries += 1;
        let n = if r.chance(1, 10) { w.assets.len() } else { nn + nt };
        let (x, y) = (r.idx(n), r.idx(n));
        if x == y || Sim::new(&w).find_pair(x, y).is_some() {
            continue;
        }
        let wl = whitelist(r, &w);
        let mins = minimums(r);
        let who = r.idx(w.users);
        w.create_pair(who, [x, y], wl, mins)?;
    }
    // approvals
    for pi in 0..w.pairs.len() {
        for side in 0..2 {
            let a = w.pairs[pi].a[side];
            if w.is_native(a) {
                continue;
            }
            for u in 0..w.users {
                if r.chance(9, 10) {
                    let n = if r.chance(9, 10) { u128::MAX / 2 } else { r.log(100) };
                    let t = w.assets[a].name.clone();
                    let s = w.pair_addr(pi);
                    w.exec(u, &t, &json!({"increase_allowance": {"spender": s, "amount": n.to_string()}}), &[]);
                }
            }
        }
    }
    for a in 0..w.assets.len() {
        if w.assets[a].kind == Kind::Cw20 {
            for _ in 0..3 {
                let (o, s) = (r.idx(w.users), r.idx(w.users));
                let t = w.assets[a].name.clone();
                let sp = w.accts[s].clone();
                let n = r.log(126);
                w.exec(o, &t, &json!({"increase_allowance": {"spender": sp, "amount": n.to_string()}}), &[]);
            }
        }
    }
    w.observe();
    Ok(w)
}

pub const ODD_NAMES: [&str; 6] = ["x", "", "Nobody At All", " ", "*", "a b"];

pub fn whitelist(r: &mut Rng, w: &World) -> Vec<usize> {
    let mut wl: Vec<usize> = (0..w.users).filter(|_| r.chance(1, 3)).collect();
    if r.chance(1, 8) {
        // a long list, with accounts that do nothing else
        for i in 0..r.range(1, 40) as usize {
            wl.push(1000 + i);
        }
    }
    if r.chance(1, 16) {
        wl.push(r.idx(w.accts.len()));
    }
    if r.chance(1, 16) && !wl.is_empty() {
        let again = r.pick(&wl);
        wl.push(again);
    }
    if r.chance(1, 12) {
        // names that are no addresses, and contracts that do not exist yet (the pool itself)
        wl.push(2000 + r.idx(ODD_NAMES.len()));
        wl.push(3000 + w.contracts + r.idx(3));
    }
    r.shuffle(&mut wl);
    wl
}
pub fn minimums(r: &mut Rng) -> [u128; 2] {
    let mut one = || match r.below(8) {
        0..=3 => 0,
        4..=6 => r.log(30),
        _ => r.log(100),
    };
    [one(), one()]
}

pub fn amount(r: &mut Rng, max: u128) -> u128 {
    match r.below(14) {
        12 => {
            // where machine words and round numbers end
            let v = 1u128 << r.range(1, 127);
            nudge(r, v).min(max.max(1))
        }
        13 => {
            let v = 10u128.pow(r.range(0, 36) as u32).saturating_mul(r.range(1, 99) as u128);
            nudge(r, v).min(max.max(1))
        }
        0 => max,
        1 if r.chance(1, 6) => u128::MAX,
        1 => max.saturating_add(1),
        2 => r.below(3) as u128,
        3 => max / 2,
        4 | 5 => {
            if max == 0 {
                1
            } else {
                r.upto(max)
            }
        }
        _ => {
            let bits = (128 - max.leading_zeros() as u64).max(1);
            r.log(bits).min(max.max(1))
        }
    }
}

/// an amount that moves a reserve noticeably
fn near_reserve(r: &mut Rng, reserve: u128, have: u128) -> u128 {
    let v = match r.below(7) {
        0 => reserve / r.range(2, 2000) as u128,
        1 => reserve,
        2 => reserve.saturating_mul(r.range(2, 50) as u128),
        3 => reserve.saturating_sub(1),
        4 => reserve.saturating_add(1),
        5 => (reserve / 1000).saturating_mul(r.range(1, 999) as u128),
        _ => return amount(r, have),
    };
    if r.chance(19, 20) {
        v.min(have)
    } else {
        v
    }
}

fn to(r: &mut Rng, w: &World) -> To {
    match r.below(20) {
        0..=9 => To::Default,
        10..=15 => To::Acct(r.idx(w.users)),
        16 | 17 => To::Acct(r.idx(w.accts.len())),
        18 => To::Bad(r.pick(&["", "x", "AURA1ALICE0000000000000000000000000000000AA"]).to_string()),
        _ => {
            if w.pairs.is_empty() {
                To::Default
            } else {
                To::Acct(w.pairs[r.idx(w.pairs.len())].acct)
            }
        }
    }
}

pub fn rich(r: &mut Rng, w: &World, a: usize) -> usize {
    let mut u = r.idx(w.users);
    for _ in 0..6 {
        if w.snap.bal[a][u] > 0 {
            break;
        }
        u = r.idx(w.users);
    }
    u
}

fn live_pair(r: &mut Rng, w: &World) -> usize {
    let mut p = r.idx(w.pairs.len());
    for _ in 0..5 {
        if w.shares(&w.snap, p) > 0 {
            break;
        }
        p = r.idx(w.pairs.len());
    }
    p
}

fn nudge(r: &mut Rng, v: u128) -> u128 {
    match r.below(4) {
        0 => v.saturating_add(1),
        1 => v.saturating_sub(1),
        _ => v,
    }
}

/// a belief price and maximum spread around the point where this swap starts to be refused
fn guards(r: &mut Rng, w: &World, pair: usize, side: usize, amt: u128) -> (Option<u128>, Option<u128>) {
    let pr = &w.pairs[pair];
    let pools = w.pools(&w.snap, pair);
    let random_max = |r: &mut Rng| match r.below(9) {
        6..=8 => E18 / 1000 * r.pick(&[1u128, 5, 10, 20, 50, 100, 250, 500, 750, 990, 999, 1000, 1001, 2000]),
        0 => 0,
        1 => 5 * E18 / 1000,
        2 => E18,
        3 => r.log(100),
        4 => E18 / r.range(1, 1000) as u128,
        _ => r.upto(E18),
    };
    let (ret, spread, _) = match swap_calc(pools[side], pools[1 - side], amt) {
        Some(x) => x,
        None => return (None, Some(random_max(r))),
    };
    let (d_o, d_a) = (pr.dec[side], pr.dec[1 - side]);
    if r.chance(1, 2) {
        let m = match loss_ratio(amt, ret, &spread, None, d_o, d_a) {
            Ok(Some(l)) if r.chance(3, 4) => nudge(r, l.sat128()),
            _ => random_max(r),
        };
        return (None, Some(m));
    }
    // around the mid price offer / ask, scaled to equal decimals
    let (mut o, mut q) = (big(amt), big(ret.max(1)));
    if d_o > d_a && d_o - d_a < 20 {
        q = q.mul(&crate::big::Big::pow10((d_o - d_a) as u32));
    } else if d_a > d_o && d_a - d_o < 20 {
        o = o.mul(&crate::big::Big::pow10((d_a - d_o) as u32));
    }
    let mid = ratio18(&o, &q).sat128();
    let b = match r.below(10) {
        8 => {
            // as people write it: one or two digits
            let p = 10u128.pow((mid.max(1).ilog10()).saturating_sub(r.below(2) as u32));
            (mid / p + r.below(2) as u128).saturating_mul(p)
        }
        9 => E18,
        0 => mid,
        1 => mid.saturating_add(1),
        2 => mid.saturating_sub(1),
        3 => (mid / 1000).saturating_mul(r.range(900, 1100) as u128),
        4 => mid / 2,
        5 => r.log(90),
        6 => mid.saturating_mul(2),
        _ => (mid / 1_000_000).saturating_mul(r.range(990_000, 1_010_000) as u128),
    };
    if r.chance(1, 10) {
        return (Some(b), None);
    }
    let m = match loss_ratio(amt, ret, &spread, Some(b), d_o, d_a) {
        Ok(Some(l)) if r.chance(3, 4) => nudge(r, l.sat128()),
        _ => random_max(r),
    };
    (Some(b), Some(m))
}

pub fn swap(r: &mut Rng, w: &World, p: &Profile) -> Op {
    let mut pair = live_pair(r, w);
    let mut side = r.idx(2);
    for _ in 0..6 {
        if !w.is_native(w.pairs[pair].a[side]) {
            break;
        }
        pair = live_pair(r, w);
        side = r.idx(2);
    }
    let a = w.pairs[pair].a[side];
    let who = rich(r, w, a);
    let reserve = w.pools(&w.snap, pair)[side];
    let amt = near_reserve(r, reserve, w.snap.bal[a][who]);
    if w.is_native(a) {
        return Op::NativeSwap { pair, side, who, amt: amt.max(1) };
    }
    let (belief, maxs) = if r.chance(p.guard, 100) {
        guards(r, w, pair, side, amt)
    } else {
        (if r.chance(1, 20) { Some(r.log(80)) } else { None }, None)
    };
    let owner = if r.chance(1, 10) { Some(r.idx(w.users)) } else { None };
    let amt = match owner {
        Some(o) if r.chance(3, 4) => amt.min(w.allowance(a, o, who).0).min(w.snap.bal[a][o]),
        _ => amt,
    };
    Op::Swap { pair, side, who, amt, owner, to: to(r, w), belief, maxs }
}

pub fn provide(r: &mut Rng, w: &World, p: &Profile, pair: usize) -> Op {
    let pr = &w.pairs[pair];
    let pools = w.pools(&w.snap, pair);
    let first = w.shares(&w.snap, pair) == 0;
    let mut who = r.idx(w.users);
    if first && r.chance(5, 6) && !pr.whitelist.is_empty() {
        who = r.pick(&pr.whitelist);
        if who >= w.users {
            who = r.idx(w.users);
        }
    }
    let have = [w.snap.bal[pr.a[0]][who], w.snap.bal[pr.a[1]][who]];
    let mut d = [0u128; 2];
    if first {
        for i in 0..2 {
            d[i] = match r.below(8) {
                0 => pr.mins[i],
                1 => pr.mins[i].saturating_sub(1),
                2 => pr.mins[i].saturating_add(1),
                3 => have[i],
                _ => (amount(r, have[i] / 4)).max(pr.mins[i]),
            };
        }
    } else {
        let lead = r.idx(2);
        let frac = match r.below(5) {
            0 => pools[lead] / r.range(1, 10_000) as u128,
            1 => pools[lead].saturating_mul(r.range(1, 20) as u128),
            _ => amount(r, have[lead]),
        };
        d[lead] = frac.min(have[lead]).max(1);
        let matched = if pools[lead] > 0 {
            muldiv(d[lead], pools[1 - lead], pools[lead]).sat128()
        } else {
            0
        };
        d[1 - lead] = match r.below(8) {
            0 => matched.saturating_add(1),
            1 => matched.saturating_sub(1),
            2 => amount(r, have[1 - lead]),
            3 => (matched / 100).saturating_mul(r.range(90, 110) as u128),
            4 => (matched / 1000).saturating_mul(r.range(500, 2000) as u128),
            _ => matched,
        };
        if r.chance(9, 10) && d[1 - lead] > have[1 - lead] && pools[1 - lead] > 0 {
            // scale down to what the provider has
            d[1 - lead] = have[1 - lead];
            d[lead] = muldiv(d[1 - lead], pools[lead], pools[1 - lead]).sat128().min(have[lead]);
        }
    }
    let tol = if r.chance(p.tol, 100) {
        Some(tolerance(r, d, pools))
    } else {
        None
    };
    let mut listed = [(pr.a[0], d[0]), (pr.a[1], d[1])];
    if r.chance(1, 2) {
        listed.swap(0, 1);
    }
    let mut funds: Vec<(usize, u128)> = listed
        .iter()
        .filter(|l| w.is_native(l.0) && l.1 > 0)
        .cloned()
        .collect();
    if r.chance(p.mess, 100) {
        match r.below(7) {
            0 => {
                funds.pop();
            }
            1 => {
                if let Some(f) = funds.last_mut() {
                    f.1 = f.1.saturating_add(1);
                }
            }
            2 => {
                if let Some(f) = funds.last_mut() {
                    f.1 = (f.1 - 1).max(1);
                }
            }
            3 => {
                let n: Vec<usize> = (0..w.assets.len()).filter(|a| w.is_native(*a)).collect();
                if !n.is_empty() {
                    let a = r.pick(&n);
                    if !funds.iter().any(|f| f.0 == a) {
                        funds.push((a, r.log(20).max(1)));
                    }
                }
            }
            4 => {
                let a = r.idx(w.assets.len());
                let i = r.idx(2);
                listed[i].0 = a;
            }
            5 => {
                listed[1] = listed[0];
            }
            _ => {
                let i = r.idx(2);
                listed[i].1 = nudge(r, listed[i].1);
            }
        }
    }
    Op::Provide { pair, who, listed, tol, recv: to(r, w), funds }
}

/// a tolerance at, or one step off, the point where this deposit starts to be refused
fn tolerance(r: &mut Rng, d: [u128; 2], p: [u128; 2]) -> u128 {
    if d[0] > 0 && d[1] > 0 && p[0] > 0 && p[1] > 0 && r.chance(3, 4) {
        let i = r.idx(2);
        let mine = ratio18(&big(d[i]), &big(d[1 - i]));
        let pool = ratio18(&big(p[i]), &big(p[1 - i]));
        if mine > pool && !mine.is_zero() {
            // smallest t with mine * (1 - t) <= pool
            let k = pool.mul(&big(E18)).div(&mine).sat128();
            let t = E18.saturating_sub(k);
            return match r.below(5) {
                0 => t.saturating_add(1),
                1 => t.saturating_sub(1),
                2 => t.saturating_sub(2),
                _ => t,
            }
            .min(E18 + 1);
        }
    }
    match r.below(7) {
        0 => 0,
        1 => E18,
        2 => E18 + 1,
        3 => E18 + r.log(60),
        4 => E18 / 100,
        _ => r.upto(E18),
    }
}

pub fn withdraw(r: &mut Rng, w: &World) -> Op {
    let pair = live_pair(r, w);
    let lp = w.pairs[pair].lp;
    let who = rich(r, w, lp);
    let owner = if r.chance(1, 10) { Some(r.idx(w.users)) } else { None };
    let have = w.snap.bal[lp][owner.unwrap_or(who)];
    let amt = match r.below(6) {
        0 => have,
        1 => have / 2,
        2 => have / 10 * 9,
        _ => amount(r, have),
    };
    Op::Withdraw { pair, who, amt, owner }
}

/// a route whose later steps offer what the router already holds, so that every step would work whatever
/// the shape; or the gift that makes it so
pub fn fed_route(r: &mut Rng, w: &World) -> Option<Op> {
    let live: Vec<(usize, usize)> = w
        .pairs
        .iter()
        .enumerate()
        .filter(|(i, _)| w.shares(&w.snap, *i) > 0)
        .flat_map(|(_, p)| [(p.a[0], p.a[1]), (p.a[1], p.a[0])])
        .filter(|s| !w.is_native(s.0))
        .collect();
    if live.is_empty() {
        return None;
    }
    let held: Vec<(usize, usize)> = live.iter().copied().filter(|s| w.snap.bal[s.0][w.router] > 1).collect();
    let first = r.pick(&live);
    if held.is_empty() || r.chance(1, 5) {
        let from = rich(r, w, first.0);
        let have = w.snap.bal[first.0][from];
        return Some(Op::Transfer { asset: first.0, from, to: To::Acct(w.router), amt: (have / r.range(20, 2000) as u128).max(1) });
    }
    let mut steps = vec![first];
    let more = if r.chance(1, 4) { r.range(4, 8) } else { r.range(1, 3) };
    let mut there: Vec<usize> = held.iter().map(|s| s.0).filter(|a| *a != first.0).collect();
    there.push(first.1);
    for _ in 0..more {
        // mostly steps that find something to offer when their turn comes
        let next: Vec<(usize, usize)> = live.iter().copied().filter(|s| there.contains(&s.0)).collect();
        let s = if !next.is_empty() && r.chance(7, 8) { r.pick(&next) } else { r.pick(&live) };
        there.retain(|a| *a != s.0);
        there.push(s.1);
        steps.push(s);
    }
    if r.chance(1, 6) {
        steps.reverse();
    }
    let offer = steps[0].0;
    let who = rich(r, w, offer);
    let amt = (w.snap.bal[offer][who] / r.range(20, 2000) as u128).max(1);
    let entry = if r.chance(1, 4) { Entry::Direct { funds: vec![] } } else { Entry::Send { asset: offer, amt, owner: None } };
    Some(Op::Route { who, steps, entry, min: None, to: to(r, w) })
}

pub fn route(r: &mut Rng, w: &World) -> Op {
    if r.chance(1, 25) {
        if let Some(op) = fed_route(r, w) {
            return op;
        }
    }
    // a walk over the pools that have reserves, offering tokens only (mostly)
    let len = match r.below(20) {
        0..=5 => 1,
        6..=13 => 2,
        14..=16 => 3,
        17 | 18 => 4,
        _ if r.chance(1, 6) => r.range(10, 36) as usize,
        _ => r.range(5, 9) as usize,
    };
    let mut steps: Vec<(usize, usize)> = vec![];
    let start = live_pair(r, w);
    let s = r.idx(2);
    let mut cur = w.pairs[start].a[s];
    let mut nxt = w.pairs[start].a[1 - s];
    if w.is_native(cur) && r.chance(9, 10) {
        std::mem::swap(&mut cur, &mut nxt);
    }
    steps.push((cur, nxt));
    while steps.len() < len {
        let at = steps.last().unwrap().1;
        let opts: Vec<usize> = w
            .pairs
            .iter()
            .filter_map(|p| {
                if p.a[0] == at {
                    Some(p.a[1])
                } else if p.a[1] == at {
                    Some(p.a[0])
                } else {
                    None
                }
            })
            .collect();
        if opts.is_empty() || (w.is_native(at) && r.chance(9, 10)) {
            break;
        }
        steps.push((at, r.pick(&opts)));
    }
    let first = steps[0].0;
    match r.below(24) {
        0 => {
            r.shuffle(&mut steps);
        }
        1 => {
            let x = r.idx(w.assets.len());
            let y = r.idx(w.assets.len());
            let i = r.idx(steps.len() + 1);
            steps.insert(i, (x, y));
        }
        2 => {
            if r.chance(1, 3) {
                steps.clear();
            } else {
                let s0 = steps[0];
                steps.push(s0);
            }
        }
        _ => {}
    }
    let who = rich(r, w, first);
    let have = w.snap.bal[first][who];
    let reserve = match Sim::new(w).find_pair(first, steps.first().map_or(first, |s| s.1)) {
        Some((p, side)) => w.pools(&w.snap, p)[side],
        None => 0,
    };
    let amt = near_reserve(r, reserve, have).max(if r.chance(19, 20) { 1 } else { 0 });
    let entry = if w.is_native(first) || r.chance(1, 12) {
        let mut f = vec![];
        if w.is_native(first) && amt > 0 {
            f.push((first, amt));
        }
        Entry::Direct { funds: f }
    } else {
        let owner = if r.chance(1, 10) { Some(r.idx(w.users)) } else { None };
        let amt = match owner {
            Some(o) => amt.min(w.allowance(first, o, who).0).min(w.snap.bal[first][o]),
            None => amt,
        };
        Entry::Send { asset: first, amt, owner }
    };
    let t = to(r, w);
    let mut op = Op::Route { who, steps: steps.clone(), entry, min: None, to: t.clone() };
    if r.chance(3, 5) && !steps.is_empty() {
        let target = steps.last().unwrap().1;
        let mut sim = Sim::new(w);
        let got = if sim.apply(&op).is_ok() {
            match sim.receipts.last() {
                Some(crate::sim::Receipt::Swap { ret, .. }) => *ret,
                _ => 0,
            }
        } else {
            0
        };
        let _ = target;
        let m = match r.below(6) {
            0 => got.saturating_add(1),
            1 => got.saturating_sub(1),
            2 => r.log(100),
            3 => got / 2,
            _ => got,
        };
        if let Op::Route { min, .. } = &mut op {
            *min = Some(m);
        }
    }
    op
}

fn forge(r: &mut Rng, w: &World) -> Op {
    let pair = r.idx(w.pairs.len());
    let pr = &w.pairs[pair];
    let cw: Vec<usize> = (0..w.assets.len()).filter(|a| !w.is_native(*a)).collect();
    match r.below(8) {
        0 | 1 => {
            let target = if r.chance(1, 5) { w.router } else { pr.acct };
            let claim = r.idx(w.accts.len());
            let hook = r.pick(&[Hook::Swap, Hook::Withdraw, Hook::Withdraw, Hook::Garbage, Hook::Route]);
            let steps = vec![(pr.a[0], pr.a[1])];
            let p = w.pools(&w.snap, pair);
            let bound = p[0].max(w.shares(&w.snap, pair));
            let mut who = if r.chance(1, 2) { r.idx(w.users) } else { r.idx(w.accts.len()) };
            let genuine = |u: usize| [pr.a[0], pr.a[1], pr.lp].iter().any(|a| !w.is_native(*a) && w.assets[*a].name == w.accts[u]);
            if genuine(who) {
                who = r.idx(w.users);
            }
            Op::Forge { target, who, claim, amt: amount(r, bound), hook, steps }
        }
        2 => {
            // a share token that entered the pool by mistake, claimed by somebody else
            Op::Transfer { asset: pr.lp, from: rich(r, w, pr.lp), to: To::Acct(pr.acct), amt: r.log(40) }
        }
        3 => {
            // another pool's share token
            let other = w.pairs[r.idx(w.pairs.len())].lp;
            let who = rich(r, w, other);
            Op::Misdirect { asset: other, who, target: pr.acct, amt: amount(r, w.snap.bal[other][who]).max(1), hook: r.pick(&[Hook::Withdraw, Hook::Swap]) }
        }
        _ => {
            let asset = if r.chance(1, 2) { r.pick(&cw) } else { r.pick(&[pr.a[0], pr.a[1], pr.lp]) };
            if w.is_native(asset) {
                return forge(r, w);
            }
            let who = rich(r, w, asset);
            let target = if r.chance(1, 10) { r.idx(w.accts.len()) } else { pr.acct };
            let hook = r.pick(&[Hook::Swap, Hook::Withdraw, Hook::Withdraw, Hook::Garbage]);
            let bits = 128 - w.snap.bal[asset][who].leading_zeros() as u64;
            Op::Misdirect { asset, who, target, amt: r.log(bits.clamp(1, 60)).max(1), hook }
        }
    }
}

pub fn ledger(r: &mut Rng, w: &World) -> Op {
    let cw: Vec<usize> = (0..w.assets.len()).filter(|a| !w.is_native(*a)).collect();
    let asset = r.pick(&cw);
    let who = rich(r, w, asset);
    let other = r.idx(w.users);
    let have = w.snap.bal[asset][who];
    match r.below(10) {
        0 => {
            let n = amount(r, have);
            Op::Burn { asset, who, amt: if r.chance(3, 4) { n / 1000 } else { n } }
        }
        1 => {
            let n = amount(r, w.allowance(asset, other, who).0);
            Op::BurnFrom { asset, who, owner: other, amt: n / r.pick(&[1u128, 1000]) }
        }
        2 | 3 => {
            let minter = w.assets[asset].minter;
            let who = match minter {
                Some(m) if m < w.users && r.chance(2, 3) => m,
                _ => r.idx(w.users),
            };
            let room = w.assets[asset].cap.unwrap_or(u128::MAX).saturating_sub(w.snap.supply[asset]);
            let amt = match r.below(6) {
                0 => room,
                1 => room.saturating_add(1),
                _ => r.log(60),
            };
            Op::Mint { asset, who, to: to(r, w), amt }
        }
        4 => Op::NewMinter { asset, who: w.assets[asset].minter.filter(|m| *m < w.users && r.chance(1, 3)).unwrap_or(other), to: if r.chance(1, 6) { None } else { Some(r.idx(w.users)) } },
        5 | 6 => {
            let spender = if r.chance(1, 2) && !w.pairs.is_empty() { w.pairs[r.idx(w.pairs.len())].acct } else { other };
            let h = w.height();
            let expires = match r.below(7) {
                6 => Some(0),
                0 => Some(h),
                1 => Some(h + 1),
                2 => Some(h + r.range(2, 12)),
                3 => Some(h + 1_000_000),
                _ => None,
            };
            let up = r.chance(3, 5);
            let cur = w.allowance(asset, who, spender).0;
            Op::Allow { asset, owner: who, spender, amt: if r.chance(1, 12) { u128::MAX } else if up { r.log(120) } else { amount(r, cur) }, up, expires }
        }
        7 | 8 => {
            let cur = w.allowance(asset, other, who).0;
            Op::TransferFrom { asset, spender: who, owner: other, to: to(r, w), amt: amount(r, cur.min(w.snap.bal[asset][other])) }
        }
        _ => Op::Blocks(r.range(1, 20)),
    }
}

pub fn transfer(r: &mut Rng, w: &World) -> Op {
    let asset = r.idx(w.assets.len());
    let from = rich(r, w, asset);
    let t = match r.below(4) {
        0 => To::Acct(w.pairs[r.idx(w.pairs.len())].acct),
        1 => To::Acct(w.router),
        _ => to(r, w),
    };
    // the chain takes any text for the recipient of coins
    let t = if w.is_native(asset) && matches!(t, To::Bad(_)) { To::Acct(r.idx(w.users)) } else { t };
    let n = amount(r, w.snap.bal[asset][from]);
    let amt = match r.below(8) {
        0 | 1 => n,
        2 => r.range(1, 3) as u128,
        _ => n / 100,
    };
    Op::Transfer { asset, from, to: t, amt }
}

pub fn op(r: &mut Rng, w: &World, p: &Profile) -> Op {
    let ws = [
        p.swap,
        p.provide,
        p.withdraw,
        p.route,
        p.router_misc,
        p.forge,
        p.transfer,
        p.ledger,
        2,
        p.admin,
    ];
    let mut k = r.below(ws.iter().sum());
    let mut i = 0;
    while k >= ws[i] {
        k -= ws[i];
        i += 1;
    }
    match i {
        0 => swap(r, w, p),
        1 => {
            let pair = if r.chance(3, 4) { live_pair(r, w) } else { r.idx(w.pairs.len()) };
            let op = provide(r, w, p, pair);
            // without an approval there is nothing to see, mostly
            if let Op::Provide { who, .. } = op {
                let pr = &w.pairs[pair];
                for a in pr.a {
                    if !w.is_native(a) && w.allowance(a, who, pr.acct).0 == 0 && r.chance(2, 3) {
                        return Op::Allow { asset: a, owner: who, spender: pr.acct, amt: u128::MAX / 2, up: true, expires: None };
                    }
                }
            }
            op
        }
        2 => withdraw(r, w),
        3 => route(r, w),
        4 => {
            let a = r.idx(w.assets.len());
            if r.chance(2, 3) {
                // mostly of something the router holds, by anybody, contracts included
                let all: Vec<(usize, usize)> = w.pairs.iter().flat_map(|p| [(p.a[0], p.a[1]), (p.a[1], p.a[0])]).collect();
                let held: Vec<(usize, usize)> = all.iter().copied().filter(|s| w.snap.bal[s.0][w.router] > 0).collect();
                let step = if !held.is_empty() && r.chance(2, 3) { r.pick(&held) } else { r.pick(&all) };
                let mut who = match r.below(4) {
                    0 => r.idx(w.accts.len()),
                    1 => w.ix.get(&w.assets[r.pick(&[step.0, step.1])].name).copied().unwrap_or(w.factory),
                    _ => r.idx(w.users),
                };
                if who == w.router {
                    who = w.factory;
                }
                let t = if r.chance(1, 4) { To::Acct(who) } else { to(r, w) };
                Op::RouterStep { who, step, to: t, coins: r.chance(1, 3) }
            } else {
                let receiver = r.idx(w.users);
                let b = w.snap.bal[a][receiver];
                Op::RouterAssert { who: r.idx(w.users), asset: a, prev: nudge(r, b), min: r.below(3) as u128, receiver }
            }
        }
        5 => forge(r, w),
        6 => transfer(r, w),
        7 => ledger(r, w),
        8 => {
            let far = 10u64.pow(r.range(3, 8) as u32);
            Op::Blocks(if r.chance(1, 8) { far } else { r.range(1, 100) })
        }
        _ => admin(r, w),
    }
}

fn admin(r: &mut Rng, w: &World) -> Op {
    let n: Vec<usize> = (0..w.assets.len()).filter(|a| w.is_native(*a)).collect();
    Op::Admin(match r.below(5) {
        0..=2 if !n.is_empty() => Admin::Decimals { asset: r.pick(&n), decimals: r.pick(&[0u8, 3, 6, 8, 12, 18]) },
        0 | 3 => Admin::Codes { pair: r.pick(&[CODE_PAIR, CODE_PAIR2]), token: r.pick(&[CODE_TOKEN, CODE_TOKEN2]) },
        _ => {
            let a = [r.idx(w.assets.len()), r.idx(w.assets.len())];
            Admin::NewPool { who: r.idx(w.users), a, whitelist: whitelist(r, w), mins: minimums(r) }
        }
    })
}
