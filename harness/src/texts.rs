// written by tools/spec.py
pub struct Text {
    pub id: &'static str,
    pub title: &'static str,
    pub level: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}
pub static TEXTS: &[Text] = &[
    Text { id: "P01", title: "A swap never lowers the product of a pool's two reserves", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. One evaluation per executed swap, sampled at the pool directly before and after it (each hop of a route on its own). Non-trivial: the pool had shares and paid something out; counted by distinct reserves, offer and side." },
    Text { id: "P02", title: "A swap pays exactly the constant-product output less the 0.3% fee", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Every executed swap (each hop of a route separately) is compared with the exact payout and both reserves after it; unguarded direct swaps must also be accepted and move exactly the specified balances. Non-trivial: a payout above zero; counted by distinct reserves, offer and side." },
    Text { id: "P03", title: "Operations change exactly the balances they should, and only those", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. After every operation the complete balance sheet (every account, contract, asset and supply) and the touched allowances are compared with an executable specification. Non-trivial: an accepted operation other than the passing of blocks, by content." },
    Text { id: "P04", title: "A swap executes exactly as quoted just before", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Before each direct swap the pool is asked for a simulation; payout, spread and fee of the execution are compared with it, and both with exact arithmetic; in between, quotes of arbitrary offers of either asset (coins included) are compared with exact arithmetic. Non-trivial: a quoted payout above zero; counted by reserves, offer and side." },
    Text { id: "P05", title: "A reverse quote names an offer that really buys what was asked for", level: "exploration", quick: 4800, thorough: 140000, rule: "Pools are given arbitrary reserves by transfers; asks sit on, next to and beyond the largest attainable amount. Each answer is judged by executing (or, for coins, simulating) the named offer and one unit more. Non-trivial: an offer above zero was named and tried; counted by reserves, side and ask." },
    Text { id: "P06", title: "The maximum-spread guard refuses exactly the swaps that lose too much", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Guard values are computed for the concrete swap to sit exactly on, one step below and one step above the threshold. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a maximum was given; counted by distinct operation." },
    Text { id: "P07", title: "Forged or misdirected token notifications have no effect", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Users call the notification entries themselves, claiming senders and amounts, and send every token (also share tokens and unrelated ones) with every instruction to every pool and the router. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a forged or misdirected notification that has to be refused; by content." },
    Text { id: "P08", title: "Only a whitelisted provider with the minimum deposits opens an empty pool", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Pools are opened, emptied by withdrawing or burning every share, and opened again; deposits sit on and next to the minimums. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a provision to a pool without shares with a definite outcome; by content." },
    Text { id: "P09", title: "A later provision earns the smaller of its two proportional shares", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a provision to a pool with shares with a definite outcome; by content." },
    Text { id: "P10", title: "Declared coins equal attached coins, and both pool assets are named", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Most provisions are tampered with: coins missing, one unit more or less, foreign coins, foreign or repeated assets. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a pool with a coin, or a provision that must be refused for its coins or assets; by content." },
    Text { id: "P11", title: "The slippage tolerance refuses exactly the deposits off the pool's price", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Tolerances are computed to sit on, one step below and one step above the threshold of the concrete deposit. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a provision with a tolerance and a definite outcome; by content." },
    Text { id: "P12", title: "A withdrawal pays the holder's exact proportional part of both reserves", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: an accepted withdrawal; by content." },
    Text { id: "P13", title: "The value behind each share never falls, and quick round trips never profit", level: "exploration", quick: 6400, thorough: 200000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. The invariant is compared in exact integers around every operation and every hop of a route; each later provision is undone at once on a fork. Non-trivial: a change of reserves or shares; by content." },
    Text { id: "P14", title: "Share supply equals the shares held and changes only by its three causes", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. After every operation each share token's supply is compared with the sum of all its balances and the reason of every change is checked. Non-trivial: a change of a share supply; by content." },
    Text { id: "P15", title: "Every holder can always leave, and the last one takes everything", level: "exploration", quick: 6400, thorough: 200000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. At random points and at the end all holders of every pool leave in a random order, on a fork. Non-trivial: a holder that left; by shares, supply and reserves." },
    Text { id: "P16", title: "Pool and pair queries tell the truth, and the creation record never changes", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Whenever a pool's balances change, and now and then otherwise, its answers and the factory's are compared with the balance sheet and the creation record. Non-trivial: by distinct reserves and supply." },
    Text { id: "P17", title: "Hostile tokens cannot take honest money", level: "exploration", quick: 1600, thorough: 45000, rule: "Histories over pools of honest assets and scriptable hostile tokens; scripts change between operations and make nested calls (re-entrant swaps, forged notifications, router and factory calls) when the token is called. Every operation is judged by account-wise loss bounds and exact share worth. Non-trivial: an accepted operation that involved a hostile token; by operation and message trace." },
    Text { id: "P18", title: "Only the owner changes factory settings, and exactly as asked", level: "exploration", quick: 40000, thorough: 800000, rule: "Histories of settings changes (every subset of fields, invalid addresses), handovers, coin registrations, migrations and creations by owner, former owners, contracts and strangers against a model of the settings. Non-trivial: a settings change or migration attempt; by content and settings." },
    Text { id: "P19", title: "One pool per pair of assets, found by either order", level: "exploration", quick: 40000, thorough: 800000, rule: "Registries of up to 11 assets, one in sixty of up to 21 and a hundred pools (coins that are prefixes of one another, ordinary and scriptable tokens), creations and lookups in both orders and spellings, with assets that do not exist, against a model. Non-trivial: a creation attempt; by message." },
    Text { id: "P20", title: "Listing pools page by page shows each exactly once", level: "exploration", quick: 16000, thorough: 300000, rule: "Registries of 0 to 78 pools with colliding prefixes are walked with many page sizes, and entered from arbitrary pairs. Non-trivial: a complete walk; by page size and registry." },
    Text { id: "P21", title: "Pool decimals come from the token or the owner's registry", level: "exploration", quick: 40000, thorough: 800000, rule: "Histories of registrations (also by strangers and without balance), tokens that change their decimals, and creations against a model. Non-trivial: a registration or creation; by content." },
    Text { id: "P22", title: "A route delivers at least the minimum receive, or nothing happens", level: "exploration", quick: 6400, thorough: 200000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Minimums are computed to sit on, one below and one above the route's true output. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a route with a minimum (or the assertion called directly) with a definite outcome; by content." },
    Text { id: "P23", title: "A route equals its swaps in sequence and leaves nothing with the router", level: "exploration", quick: 6400, thorough: 200000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Routes of one to nine steps over up to six pools, run on the contracts and through the executable specification; the whole balance sheet must agree. Non-trivial: an accepted route; by steps and amounts." },
    Text { id: "P24", title: "Only the router runs its own steps, and a route has exactly one output", level: "exploration", quick: 6400, thorough: 200000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Arbitrary step sequences (also through no pools) and direct step calls. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Non-trivial: a step called from outside, a route that must be refused for its shape, or an accepted one of several steps; by content." },
    Text { id: "P25", title: "Route quotes are the pools' quotes composed, and match execution", level: "exploration", quick: 4800, thorough: 140000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Every route is quoted in both directions before it runs and compared with the pools' own quotes and with its execution. Non-trivial: a positive quote; by route and amounts." },
    Text { id: "P26", title: "Tokens are created only with valid parameters, and exactly as asked", level: "exploration", quick: 40000, thorough: 800000, rule: "Parameters on and around every limit (lengths in bytes with multi-byte characters, characters next to the allowed ranges, caps next to the initial supply, repeated and invalid accounts); the outcome and every view are compared with the rules. Non-trivial: a created token; by message." },
    Text { id: "P27", title: "The token keeps an exact ledger of balances, supply and allowances", level: "exploration", quick: 8000, thorough: 400000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. Allowances (with expiry), minter and views are read back. Non-trivial: an accepted token operation; by operation and balances." },
    Text { id: "P28", title: "Wide arithmetic is exact or fails, and never wraps", level: "exploration", quick: 240000, thorough: 4000000, rule: "Operands on limb, power-of-ten and overflow boundaries; each operation runs on the real library and on an independent exact big integer. Non-trivial: an exact result with an operand over 64 bits; by operation and operands." },
    Text { id: "P29", title: "Numbers survive texts and conversions unchanged", level: "exploration", quick: 180000, thorough: 4000000, rule: "Random values and texts (well-formed, too long, too large, malformed) against an independent exact printer and parser. Non-trivial: a successful round trip of a value over 64 bits or a text with a fraction; by content." },
    Text { id: "P30", title: "Every operation is all or nothing when any part of it fails", level: "fault_enumeration", quick: 4000, thorough: 100000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Each operation is repeated on a fork once per message (failing before and after its effect) and per query it triggers, one injected failure each. Non-trivial: an injected failure in an operation that succeeds without it; by operation and position." },
    Text { id: "P31", title: "Migration is for the owner alone and preserves everything", level: "exploration", quick: 960, thorough: 25000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Random operations run on two forks, with and without one to three migrations just before, and their outcomes, all balances and all views are compared; strangers try every migration; a third of the cases migrate pools whose tokens or coin registrations have changed their decimals since. Non-trivial: an accepted operation compared; by operation and balances." },
    Text { id: "P32", title: "Reported amounts are the amounts that moved", level: "exploration", quick: 8000, thorough: 240000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Every event of a pool is compared with the balance changes sampled at that pool around that very message. Non-trivial: an event compared; by its numbers." },
    Text { id: "P33", title: "Library helpers tell and move exactly what the chain holds", level: "exploration", quick: 3000, thorough: 150000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. After operations the helpers are called on the live chain with random (also nonexistent) accounts, assets and pools and compared with the observed balance sheet and the contracts' own answers; built payments are executed on a fork. Non-trivial: a comparison of a non-zero value or an executed payment; by its content." },
    Text { id: "P34", title: "Deployments on one chain do not touch each other", level: "exploration", quick: 1500, thorough: 80000, rule: "A second deployment by another owner (same codes, other decimals, partly the same asset pairs) and a pool instantiated by hand are added to a random world; random operations on each are judged by the specification seen through that deployment, by a whole balance sheet, and by which contracts were written to. Non-trivial: an accepted operation; by content and balances." },
    Text { id: "P35", title: "Every operation and answer is a function of the chain's state alone", level: "exploration", quick: 1800, thorough: 50000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Every operation (also creations, settings, registrations, migrations) is run three times on forks of the same state and once in a random other block, unless an allowance it spends expires in between; calls, events, queries made, contracts touched and the whole state are compared. Non-trivial: an accepted operation; by content and balances." },
    Text { id: "P36", title: "Contracts of a release can be upgraded in place", level: "exploration", quick: 1400, thorough: 40000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. The system is deployed and used with a frozen copy of the released code (released/), its contracts are upgraded one by one in random order, and each operation after an upgrade is compared with the same operation on a fork without it (outcome, balances, all views, the registry page by page), and with the executable specification. Non-trivial: an accepted operation compared; by operation and balances." },
    Text { id: "P37", title: "A misspelled message is refused, never half understood", level: "exploration", quick: 2400, thorough: 40000, rule: "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. Every accepted message (and each kind of instantiation, migration and question) is taken as a text, spoiled at a random place (also within the instruction of a notification) and sent from the same state: it must be refused and write nothing; then written another way (order of fields, white space, null or absent) it must do exactly the same, events and state compared. Non-trivial: a malformed message refused of which the original is accepted; by message and kind of damage." },
];
