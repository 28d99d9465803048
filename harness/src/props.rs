use crate::check::{Cx, Prop, V};
use crate::engine as e;
use crate::registry as g;
#[cfg(feature = "helpers")]
use crate::helpers;
#[cfg(feature = "numbers")]
use crate::nums;
use crate::{hostile, more, same, token, twin, wire};
#[cfg(feature = "upgrade")]
use crate::upgrade;

const A: &[&str] = &["the chain (message order, rollback, bank) behaves as its multi-contract simulator does"];

macro_rules! p {
    ($id:expr, $f:expr) => {{
        Row { id: $id, case: $f }
    }};
}
struct Row {
    id: &'static str,
    case: fn(&mut Cx) -> V,
}

static ALL: &[Row] = &[
    p!("P01", |c| e::history(c, e::Product)),
    p!("P02", |c| e::history(c, e::Payout)),
    p!("P03", |c| e::history(c, e::Sheet)),
    p!("P04", |c| e::history(c, e::Quote::default())),
    p!("P05", more::reverse_quote),
    p!("P06", e::spread_guard),
    p!("P07", e::forged),
    p!("P08", e::first_provision),
    p!("P09", e::later_provision),
    p!("P10", e::attached),
    p!("P11", e::slippage),
    p!("P12", e::withdrawal),
    p!("P13", |c| e::history(c, e::ShareValue)),
    p!("P14", |c| e::history(c, e::ShareSupply)),
    p!("P15", |c| e::history(c, e::Exit)),
    p!("P16", |c| e::history(c, e::Views)),
    p!("P17", hostile::isolation),
    p!("P18", g::authority),
    p!("P19", g::unique),
    p!("P20", g::listing),
    p!("P21", g::decimals),
    p!("P22", e::minimum),
    p!("P23", |c| e::history(c, e::Chain)),
    p!("P24", e::shape),
    p!("P25", |c| e::history(c, e::RouteQuote::default())),
    p!("P26", token::creation),
    p!("P27", |c| e::history(c, token::Ledger::default())),
    #[cfg(feature = "numbers")]
    p!("P28", nums::arithmetic),
    #[cfg(feature = "numbers")]
    p!("P29", nums::texts),
    p!("P30", |c| e::history(c, more::Faults)),
    p!("P31", |c| if c.r.chance(1, 3) { g::migrations(c) } else { e::history(c, more::Migration::default()) }),
    p!("P32", |c| e::history(c, e::Reports)),
    #[cfg(feature = "helpers")]
    p!("P33", |c| e::history(c, helpers::Helpers)),
    p!("P34", twin::apart),
    p!("P35", |c| e::history(c, same::Repeat)),
    #[cfg(feature = "upgrade")]
    p!("P36", upgrade::history),
    p!("P37", |c| e::history(c, wire::Wire)),
];
pub fn all() -> Vec<Prop> {
    ALL.iter()
        .map(|r| {
            let t = crate::texts::TEXTS.iter().find(|t| t.id == r.id).expect("a text for each property");
            Prop { id: t.id, title: t.title, level: t.level, quick: t.quick, thorough: t.thorough, rule: t.rule, assumptions: A, case: r.case }
        })
        .collect()
}
