#!/usr/bin/env python3
"""The one source of the properties' texts: writes properties.jsonl, MANIFEST.json and harness/src/texts.rs."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FA, PA, RO, TO = (f"contracts/halo-{x}/src/contract.rs" for x in ("factory", "pair", "router", "token"))
MP, MF, MR, MT = (f"packages/haloswap/src/{x}.rs" for x in ("pair", "factory", "router", "token"))
FS, PS, RS, OPS = "contracts/halo-factory/src/state.rs", "contracts/halo-pair/src/state.rs", "contracts/halo-router/src/state.rs", "contracts/halo-router/src/operations.rs"
AS, QU, MA, TK = "packages/haloswap/src/asset.rs", "packages/haloswap/src/querier.rs", "packages/bignumber/src/math.rs", "packages/haloswap/src/token.rs"

H = "Random histories over a freshly deployed system (random decimals, supplies from tens to 2^124 units, whitelists, minimums, pools over each other's share tokens); every operation is run on the real contracts and judged from the balances observed before and after. "
GATE = "Each operation the property is about is also run through an executable specification in exact integers: it must be accepted exactly when the specification accepts, with exactly the specified balances afterwards. "
T_HIST = "runtime monitoring: trace monitor over randomised contract histories, exact-arithmetic oracle"
T_MODEL = "runtime monitoring: online reference-model monitor over randomised contract histories"

P = []
def prop(id, title, statement, over, quant, why, files, mech, rule, quick, thorough, technique, note, level="exploration", state=(), observe=()):
    quick *= {"P27": 1, "P33": 1, "P34": 1, "P28": 4, "P29": 3}.get(id, 2)
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  rule=rule, quick=quick, thorough=thorough, technique=technique, note=note, level=level, state=state, observe=observe))

SIM = "The chain is cw-multi-test with hooks on every message, query and write; addresses are lower-cased there as a bech32 chain does."
RES = ("pool reserves", "the pool's balances of its two assets", "held by the token contracts and the bank")
SHA = ("share supply", "total supply of the pool's share token", TO)

prop("P01", "A swap never lowers the product of a pool's two reserves",
 "Whatever is offered, in either direction, by anybody and whether sent directly or as one step of a route, the product of the pool's two reserves right after a swap is at least the product right before it.",
 ["histories", "inputs"], "every reachable pair of reserves (1 unit to 2^124), every offer and direction, direct and routed swaps, every decimals combination",
 "The tests swap a few hand-picked amounts on one or two pools and compare constants; rounding that favours the trader at other magnitudes is invisible to them.",
 [PA, RO, OPS, MA], [("constant-product output rounded down, fee kept", f"{PA}: compute_swap, swap")],
 H + "One evaluation per executed swap, sampled at the pool directly before and after it (each hop of a route on its own). Non-trivial: the pool had shares and paid something out; counted by distinct reserves, offer and side.",
 4000, 240000, T_HIST, "No counterexample in the explored swaps; exact 256-bit comparison of products. " + SIM, state=[RES])

prop("P02", "A swap pays exactly the constant-product output less the 0.3% fee",
 "A swap of o into reserves O (of the offered asset, before the offer) and A pays the named recipient (the sender if none) exactly G - floor(0.003*G) where G = floor(A*o/(O+o)), and the pool keeps the whole offer and everything else, fee included. A swap without a price guard of tokens the sender has is accepted whenever both reserves are nonzero and the spread fits 128 bits, also when the payout is zero (then nothing is transferred).",
 ["histories", "inputs"], "every reachable pair of reserves and every offer and direction, direct and routed, with and without a named recipient",
 "The tests check a handful of amounts with round reserves; exactness at all magnitudes needs an independent exact computation for each executed swap.",
 [PA, MA, AS], [("compute_swap", f"{PA}: compute_swap"), ("payment of the return asset", f"{PA}: swap; {AS}: into_msg"), ("fee constant", f"{PA}: COMMISSION_RATE")],
 H + "Every executed swap (each hop of a route separately) is compared with the exact payout and both reserves after it; unguarded direct swaps must also be accepted and move exactly the specified balances. Non-trivial: a payout above zero; counted by distinct reserves, offer and side.",
 4000, 240000, T_HIST, "Exact equality on every explored swap. Swaps whose spread exceeds 128 bits are left open. " + SIM, state=[RES])

prop("P03", "Operations change exactly the balances they should, and only those",
 "Every accepted operation (swap, route, provision, withdrawal, token transfer, mint, burn, delegated variant) changes the balances of exactly the parties and assets it names by exactly the defined amounts, and the spending allowances it uses by exactly what was spent; nothing is created, lost or moved for anybody else. A refused operation changes no balance, supply or stored state.",
 ["histories", "inputs"], "every history of operations by several users over several pools, tokens, coins and share tokens",
 "Tests look at the two or three balances they expect to change; that no other of the accounts, assets and supplies changes in any history needs a whole balance sheet compared after every operation.",
 [PA, RO, OPS, TO, AS], [("message construction", f"{AS}: into_msg, into_submsg"), ("deposits pulled by allowance", f"{PA}: provide_liquidity"), ("refunds and burn", f"{PA}: withdraw_liquidity")],
 H + "After every operation the complete balance sheet (every account, contract, asset and supply) and the touched allowances are compared with an executable specification. Non-trivial: an accepted operation other than the passing of blocks, by content.",
 4000, 240000, T_MODEL, "Whole-state comparison on every explored operation. Operations the specification leaves open are checked for conservation only. " + SIM, state=[RES, SHA])

prop("P04", "A swap executes exactly as quoted just before",
 "Asking a pool to simulate an offer and then swapping that offer with no operation in between pays exactly the quoted amount, and reports exactly the quoted spread and fee; a quote exists for every swap that is accepted, and an unguarded swap that was quoted is not refused; offers of coins, which a pool quotes though it takes them in no message, are quoted by the same formula. Anything that is not one of the pool's two assets (a coin named like its token, its own share token, another pool's asset) is not quoted at all.",
 ["histories", "inputs"], "every reachable pair of reserves, every offer and direction",
 "Tests compare a quote with an execution at one or two points; quote and execution subtract the offer from the reserves in different places and can drift apart on inputs not sampled.",
 [PA], [("query_simulation and swap share compute_swap", f"{PA}: query_simulation, swap")],
 H + "Before each direct swap the pool is asked for a simulation; payout, spread and fee of the execution are compared with it, and both with exact arithmetic; in between, quotes of arbitrary offers of either asset (coins included) are compared with exact arithmetic. Non-trivial: a quoted payout above zero; counted by reserves, offer and side.",
 4000, 240000, T_HIST, "Equality on every explored swap. " + SIM)

prop("P05", "A reverse quote names an offer that really buys what was asked for",
 "The offer a pool names for a wanted amount never pays more than was asked when swapped, and one unit more pays at least the asked amount less one unit and 10^-18 of it; the fee named with it is 0.3% of ask/0.997 and the spread is the offer's value at the current price less ask/0.997, each within rounding. Amounts whose gross value ask/0.997 reaches the reserve are refused, and so is every asset that is not one of the pool's two; attainable ones are answered unless the offer or its value exceeds 128 bits.",
 ["inputs", "histories"], "every pair of reserves from 1 to 2^126 and every asked amount, at the edge of the reserve and beyond it",
 "Tests ask for one amount at one pair of reserves; rounding in the reverse formula and its behaviour at the edge of the reserve cannot be settled by samples.",
 [PA, MA], [("compute_offer_amount", f"{PA}: compute_offer_amount, query_reverse_simulation")],
 "Pools are given arbitrary reserves by transfers; asks sit on, next to and beyond the largest attainable amount. Each answer is judged by executing (or, for coins, simulating) the named offer and one unit more. Non-trivial: an offer above zero was named and tried; counted by reserves, side and ask.",
 2400, 140000, "runtime monitoring: metamorphic round-trip monitor (reverse quote executed on a fork) with exact-arithmetic bounds", "Bounds checked on every explored ask; the rounding allowance of the statement is the only slack. " + SIM)

prop("P06", "The maximum-spread guard refuses exactly the swaps that lose too much",
 "With a maximum spread m and no belief price, a swap is refused exactly when spread/(payout+spread) > m; with a belief price b (offer per unit of ask) exactly when the payout falls short of offer/b by more than the fraction m, every ratio truncated to 18 digits and amounts first scaled to equal decimals. Without a maximum spread the guard refuses nothing. (Left open: amounts beyond 128 bits after scaling, decimals more than 19 apart, a belief price of zero, no payout and no spread.)",
 ["inputs", "histories", "configurations"], "every reserves, offer, belief price, maximum and decimals combination, above all at the exact threshold",
 "Tests try one value on each side at equal and one unequal decimals; the exact threshold and the scaling directions need values computed to sit on the boundary of random swaps.",
 [PA], [("assert_max_spread", f"{PA}: assert_max_spread"), ("decimals from the pool's creation record", f"{PA}: swap")],
 H + "Guard values are computed for the concrete swap to sit exactly on, one step below and one step above the threshold. " + GATE + "Non-trivial: a maximum was given; counted by distinct operation.",
 4000, 240000, T_MODEL, "Acceptance decided both ways on every explored guarded swap. " + SIM)

prop("P07", "Forged or misdirected token notifications have no effect",
 "A pool acts on a swap notification only when it comes from one of its own two tokens and on a redemption notification only from its own share token, and then only for the amount that really arrived; a notification called by anybody else, naming any sender and amount, or a transfer carrying an instruction that does not fit its token, is refused and changes nothing.",
 ["histories", "inputs"], "every caller, claimed sender and amount, every token sent to every pool with every instruction, at any point of a history",
 "Tests try one unauthorised caller; a gap for some particular caller (another pool's token, the router, a share token of another pool) is not sampled.",
 [PA, RO], [("authorisation of notifications", f"{PA}: receive_cw20"), ("share-token check", f"{PA}: receive_cw20 WithdrawLiquidity branch")],
 H + "Users call the notification entries themselves, claiming senders and amounts, and send every token (also share tokens and unrelated ones) with every instruction to every pool and the router. " + GATE + "Non-trivial: a forged or misdirected notification that has to be refused; by content.",
 4000, 240000, T_MODEL, "Exact expected outcome for each explored forged or misdirected notification. " + SIM)

prop("P08", "Only a whitelisted provider with the minimum deposits opens an empty pool",
 "While a pool has no shares (at creation and again whenever all were redeemed or burned), a provision is accepted only from an account on its whitelist and only with at least both configured minimums, each applied to the asset it was configured for whatever order the deposits are listed in; it then creates exactly floor(sqrt(a*b)) shares for deposits a and b, at any magnitude. A provision that would create no share is refused.",
 ["histories", "inputs", "configurations"], "every whitelist, minimums, sender, deposits (up to 2^124) and listing order; every way back to an empty pool",
 "Tests open a pool once with small amounts; magnitudes beyond 64 bits, reversed listing order and re-opening after the last withdrawal are not reached.",
 [PA, PS], [("first-provision branch", f"{PA}: provide_liquidity"), ("requirements in the creation record", "packages/haloswap/src/asset.rs: CreatePairRequirements")],
 H + "Pools are opened, emptied by withdrawing or burning every share, and opened again; deposits sit on and next to the minimums. " + GATE + "Non-trivial: a provision to a pool without shares with a definite outcome; by content.",
 4000, 240000, T_MODEL, "Acceptance and share decided exactly for each explored first provision. " + SIM, state=[SHA])

prop("P09", "A later provision earns the smaller of its two proportional shares",
 "A provision of a and b to a pool with reserves A and B and S > 0 shares creates exactly min(floor(a*S/A), floor(b*S/B)) shares for the named receiver (the sender if none), takes exactly a and b from the sender, no more and no less, and is refused if that is no share or the sender's coins, tokens or allowances do not cover the deposits.",
 ["histories", "inputs"], "every reachable reserves and supply, every pair of deposits in either listing order, coin and token assets, every allowance",
 "Tests provide balanced round amounts; unbalanced deposits, both listing orders and extreme ratios need exact recomputation.",
 [PA], [("share of a later provision", f"{PA}: provide_liquidity"), ("pull of the deposits", f"{PA}: provide_liquidity TransferFrom messages")],
 H + GATE + "Non-trivial: a provision to a pool with shares with a definite outcome; by content.",
 4000, 240000, T_MODEL, "Exact shares and balances for each explored provision. A provision of which one side only is worth over 2^128 shares is left open. " + SIM, state=[RES, SHA])

prop("P10", "Declared coins equal attached coins, and both pool assets are named",
 "A provision is accepted only if, for every coin asset it lists, the attached amount of that coin equals the listed amount (none attached counts as zero), and only if the list names both assets of the pool; so no coin deposit is credited that was not attached, and none is short or over.",
 ["inputs", "histories"], "every listing (orders, repetitions, foreign assets) and every set of attached coins, for pools of coins and tokens in both orders",
 "Tests try one mismatch in a one-coin pool; two-coin pools, surplus coins, repeated assets and foreign assets are not combined.",
 [PA, AS], [("assert_sent_native_token_balance", f"{AS}: assert_sent_native_token_balance"), ("matching of deposits to pool assets", f"{PA}: provide_liquidity")],
 H + "Most provisions are tampered with: coins missing, one unit more or less, foreign coins, foreign or repeated assets. " + GATE + "Non-trivial: a pool with a coin, or a provision that must be refused for its coins or assets; by content.",
 4000, 240000, T_MODEL, "Acceptance and effect for each explored provision. Coins attached without being listed are a donation, as the code has it. " + SIM)

prop("P11", "The slippage tolerance refuses exactly the deposits off the pool's price",
 "With a tolerance t a provision into nonzero reserves is refused exactly when t > 1, or one deposit is zero, or either ratio of the deposits times (1-t) exceeds the corresponding ratio of the reserves before the deposit (ratios truncated to 18 digits); on empty reserves any t up to 1 is accepted, and without a tolerance nothing is refused on this ground.",
 ["inputs", "histories"], "every deposits, reserves and tolerance, above all at the exact threshold, for coin and token assets in both orders",
 "Tests try 1% with two deposits; the exact threshold, both directions and coin deposits (which have already arrived when the reserves are read) are not settled by that.",
 [PA], [("assert_slippage_tolerance", f"{PA}: assert_slippage_tolerance"), ("reserves less the arrived coins", f"{PA}: provide_liquidity")],
 H + "Tolerances are computed to sit on, one step below and one step above the threshold of the concrete deposit. " + GATE + "Non-trivial: a provision with a tolerance and a definite outcome; by content.",
 4000, 240000, T_MODEL, "Acceptance decided both ways on each explored provision with a tolerance. " + SIM)

prop("P12", "A withdrawal pays the holder's exact proportional part of both reserves",
 "Redeeming s of S shares pays the account that sent them exactly floor(R * floor18(s/S)) of each reserve R (floor18: truncated to 18 digits), and destroys exactly those s shares; it is refused if either payout would be zero or the sender does not have the shares, and accepted otherwise.",
 ["histories", "inputs"], "every reachable reserves and supply, every number of shares by every holder, own or delegated",
 "Tests withdraw a round fraction; dust shares, extreme supplies and delegated sends need an exact oracle.",
 [PA, AS], [("refund computation", f"{PA}: withdraw_liquidity"), ("share-token check", f"{PA}: receive_cw20")],
 H + GATE + "Non-trivial: an accepted withdrawal; by content.",
 4000, 240000, T_MODEL, "Exact payouts and supply for each explored withdrawal. " + SIM, state=[RES, SHA])

prop("P13", "The value behind each share never falls, and quick round trips never profit",
 "Across every operation while a pool has shares, (reserve0*reserve1)/(shares^2) never falls and neither reserve becomes zero; and providing liquidity to a pool with shares and redeeming the new shares at once never returns more of either asset than was put in.",
 ["histories"], "every history of swaps, routes, provisions, withdrawals, donations and share burns from every reachable state",
 "Tests run a short fixed sequence; dilution by rounding needs long histories with extreme ratios and an exact comparison at each step.",
 [PA, MA], [("rounding in favour of the pool", f"{PA}: provide_liquidity, withdraw_liquidity, compute_swap")],
 H + "The invariant is compared in exact integers around every operation and every hop of a route; each later provision is undone at once on a fork. Non-trivial: a change of reserves or shares; by content.",
 3200, 200000, T_HIST, "Invariant exact on every explored step. " + SIM, state=[RES, SHA])

prop("P14", "Share supply equals the shares held and changes only by its three causes",
 "At every moment the supply of a pool's share token equals the sum of all balances of it; it rises only by an accepted provision to that pool and by exactly that provision's share, and falls only by a redemption at that pool or a holder's own burning and by exactly that amount. Nobody but the pool can create shares or take over that right.",
 ["histories"], "every history over several pools and all share-token operations by every account",
 "Tests check the share token's messages once; that no sequence of token operations (delegated, misdirected, minter changes) breaks the account needs a running ledger.",
 [PA, TO, FA], [("mint to the provider, burn on redemption", f"{PA}: provide_liquidity, withdraw_liquidity"), ("pool as only minter", f"{PA}: instantiate, reply")],
 H + "After every operation each share token's supply is compared with the sum of all its balances and the reason of every change is checked. Non-trivial: a change of a share supply; by content.",
 4000, 240000, T_HIST, "Conservation exact on every explored step. " + SIM, state=[SHA])

prop("P15", "Every holder can always leave, and the last one takes everything",
 "From any reachable state all holders of a pool's shares can redeem one after the other in any order, each receiving the exact proportional part (a part of which one payout rounds to zero excepted), and the holder of all remaining shares takes the reserves to exactly zero.",
 ["histories"], "every history, then every order of leaving",
 "Tests withdraw once from a fresh pool; insolvency or a locked last withdrawal only shows after long histories and in particular orders.",
 [PA], [("refunds from current reserves", f"{PA}: withdraw_liquidity")],
 H + "At random points and at the end all holders of every pool leave in a random order, on a fork. Non-trivial: a holder that left; by shares, supply and reserves.",
 3200, 200000, T_HIST, "Solvency by execution in the explored states and orders; bounded progress: each holder's next redemption succeeds. " + SIM, state=[RES, SHA])

prop("P16", "Pool and pair queries tell the truth, and the creation record never changes",
 "After every operation a pool's answer about its reserves and shares equals the balances and supply the token contracts and the bank state, and its and the factory's answers about the pool's identity (assets in order, address, share token, decimals, whitelist and minimums) equal what it was created with.",
 ["histories"], "every history of operations; every pool of coins and tokens in both orders",
 "Tests query once after setup; staleness or a swapped order after later operations is not looked at.",
 [PA, FA, AS], [("query_pool, query_pair_info", f"{PA}: query_pool, query_pair_info"), ("balance queries", f"{QU}; {AS}: query_pools")],
 H + "Whenever a pool's balances change, and now and then otherwise, its answers and the factory's are compared with the balance sheet and the creation record. Non-trivial: by distinct reserves and supply.",
 4000, 240000, T_HIST, "Equality on each explored state. " + SIM)

prop("P17", "Hostile tokens cannot take honest money",
 "Whatever a hostile token contract does when called (keeps a tax, skips transfers, lies about balances, calls back into pools, router, tokens or factory with any message), no account that is not acting loses any honest asset, the acting account loses no more than it offered or listed, and the worth of a share of a pool of honest assets never falls. A minimum receive of an honest asset is still honoured, and pool records, the registry and the settings stay as they were.",
 ["histories", "programs"], "every script of a hostile token (balances, taxes, nested calls) in any pool or route, together with ordinary operations",
 "The tests have no token that misbehaves or re-enters; the nested interleavings a callback can create are not sampled at all.",
 [PA, RO, OPS, FA], [("notification authorisation and reserve reads", f"{PA}: receive_cw20, swap"), ("minimum-receive check after the route", f"{RO}: execute_swap_operations, assert_minium_receive"), ("internal step restricted to the router", f"{RO}: execute_swap_operation")],
 "Histories over pools of honest assets and scriptable hostile tokens; scripts change between operations and make nested calls (re-entrant swaps, forged notifications, router and factory calls) when the token is called. Every operation is judged by account-wise loss bounds and exact share worth. Non-trivial: an accepted operation that involved a hostile token; by operation and message trace.",
 800, 45000, "runtime monitoring: adversarial-callback workload with loss-bound and invariant monitors", "No theft in the explored scripts. The hostile token acts through messages and queries, as a contract can. " + SIM, state=[RES])

prop("P18", "Only the owner changes factory settings, and exactly as asked",
 "The factory's settings (owner, pool code, token code), its registry of coin decimals and the migration of pools change only by a call of the current owner; an accepted change sets exactly the given fields and leaves the others, hands all rights over at once when the owner changes, and the settings query always states the result. A refused call changes nothing.",
 ["histories", "inputs"], "every history of settings changes, handovers, registrations and migrations by every account, with every combination of given and omitted fields",
 "Tests try one stranger and one update; sequences of handovers with partial updates are not sampled.",
 [FA, FS], [("owner checks", f"{FA}: execute_update_config, execute_add_native_token_decimals, execute_migrate_pair"), ("partial update", f"{FA}: execute_update_config")],
 "Histories of settings changes (every subset of fields, invalid addresses), handovers, coin registrations, migrations and creations by owner, former owners, contracts and strangers against a model of the settings. Non-trivial: a settings change or migration attempt; by content and settings.",
 20000, 800000, T_MODEL, "Model equality on the explored histories. " + SIM, state=[("settings", "owner and code ids", f"{FS}: CONFIG")])

prop("P19", "One pool per pair of assets, found by either order",
 "Creating a pool succeeds exactly when its two assets are different, both have known decimals and no pool of these two exists yet in either order or spelling of addresses; afterwards looking it up in either order finds exactly that pool, with the address, share token, decimals, minimums and whitelist it has itself, the creation having announced that address and share token in its events. Looking up two assets without a pool finds none.",
 ["histories", "inputs"], "every set of coins (names that are prefixes of one another) and tokens, creations in any order and spelling, refused ones in between",
 "Tests create one or two pools; collisions of keys, reversed orders and spellings need many assets whose names are chosen to collide.",
 [FA, FS, PA], [("registry key", f"{FS}: pair_key"), ("existence and equality checks", f"{FA}: execute_create_pair"), ("record written on reply", f"{FA}: reply")],
 "Registries of up to 11 assets, one in sixty of up to 21 and a hundred pools (coins that are prefixes of one another, ordinary and scriptable tokens), creations and lookups in both orders and spellings, with assets that do not exist, against a model. Non-trivial: a creation attempt; by message.",
 20000, 800000, T_MODEL, "Model equality on the explored registries, except the recorded finding joined-denominations (coins whose names join to the same text). " + SIM, state=[("registry", "pools by pair of assets", f"{FS}: PAIRS")])

prop("P20", "Listing pools page by page shows each exactly once",
 "Walking the factory's list from the start, each page starting after the last pool of the page before (named in either order), shows every pool exactly once, in the same order for every page size, and with its true record; a page holds the asked number, 10 if none is asked, never more than 30, and is short only at the end.",
 ["histories", "inputs"], "every number of pools around and beyond the page limits, every page size, every starting pool",
 "Tests list two or three pools; page boundaries at 10 and 30 and keys that are prefixes of one another are not reached.",
 [FA, FS], [("read_pairs and its bounds", f"{FS}: read_pairs, calc_range_start, MAX_LIMIT, DEFAULT_LIMIT")],
 "Registries of 0 to 78 pools with colliding prefixes are walked with many page sizes, and entered from arbitrary pairs. Non-trivial: a complete walk; by page size and registry.",
 8000, 300000, T_MODEL, "Every walk of the explored registries. " + SIM, state=[("registry", "pools by pair of assets", f"{FS}: PAIRS")])

prop("P21", "Pool decimals come from the token or the owner's registry",
 "A pool records, for each asset in order, the decimals the token contract states or the factory's registry holds for the coin at creation, and keeps them when those change later; an asset without known decimals cannot get a pool. A coin's decimals can be registered only by the owner and only while the factory holds some of that coin, the latest registration is what the query states.",
 ["histories", "inputs"], "every history of registrations, re-registrations and creations, every decimals value 0 to 255",
 "Tests use 6 and 8 decimals once; re-registration between creations and mixed orders are not sampled.",
 [FA, FS, AS, QU], [("decimals lookup", f"{AS}: query_decimals"), ("registration with proof of existence", f"{FA}: execute_add_native_token_decimals")],
 "Histories of registrations (also by strangers and without balance), tokens that change their decimals, and creations against a model. Non-trivial: a registration or creation; by content.",
 20000, 800000, T_MODEL, "Model equality on the explored histories. " + SIM, state=[("coin decimals", "decimals by denomination", f"{FS}: ALLOW_NATIVE_TOKENS")])

prop("P22", "A route delivers at least the minimum receive, or nothing happens",
 "A route with a minimum receive m is accepted only if the balance of the final asset of the named recipient (the sender if none), compared right before the first step with right after the last one, rose by at least m; otherwise the whole route is undone. Exactly m is accepted, and a route that would be accepted without a minimum is not refused for another reason.",
 ["histories", "inputs"], "every route of one or more steps, entry by token or coin, recipient (user, contract, pool) and minimum, above all at the exact threshold",
 "Tests use minimums far below or above the output; the exact threshold, foreign recipients with balances and cycles need values computed for each route.",
 [RO, OPS], [("assert_minium_receive", f"{RO}: assert_minium_receive, execute_swap_operations")],
 H + "Minimums are computed to sit on, one below and one above the route's true output. " + GATE + "Non-trivial: a route with a minimum (or the assertion called directly) with a definite outcome; by content.",
 3200, 200000, T_MODEL, "Acceptance decided both ways on each explored route. " + SIM)

prop("P23", "A route equals its swaps in sequence and leaves nothing with the router",
 "A route pays its recipient (the sender if none) exactly what its swaps pay one after the other, each step offering everything of its asset that the router then holds; afterwards the router holds nothing of any asset a step offered (unless it is itself the recipient, or an inner step yields that asset again after the last step offering it), and no account but the one paying, the one receiving and the pools of the route changes.",
 ["histories", "inputs"], "every chain of one or more steps over every set of pools, cycles and revisited pools included, any recipient",
 "Tests run two fixed routes; longer chains, revisited pools and leftovers in the router are not sampled.",
 [RO, OPS, AS], [("chain of self-calls", f"{RO}: execute_swap_operations"), ("offer of the whole balance", f"{OPS}: execute_swap_operation, asset_into_swap_msg")],
 H + "Routes of one to nine steps over up to six pools, run on the contracts and through the executable specification; the whole balance sheet must agree. Non-trivial: an accepted route; by steps and amounts.",
 3200, 200000, T_MODEL, "Whole-state equality on each explored route. " + SIM)

prop("P24", "Only the router runs its own steps, and a route has exactly one output",
 "The single-step instruction of the router is refused for every caller but the router itself, and changes nothing then; and a route is accepted only if it has at least one step and exactly one asset remains that some step yields and no later step offers, so empty or branching routes are refused.",
 ["inputs", "histories"], "every caller; every sequence of up to four steps over all assets",
 "Tests try one stranger and two malformed routes; the shape rule has many near-miss sequences.",
 [RO], [("self-call check", f"{RO}: execute dispatch, execute_swap_operation"), ("assert_operations", f"{RO}: assert_operations")],
 H + "Arbitrary step sequences (also through no pools) and direct step calls. " + GATE + "Non-trivial: a step called from outside, a route that must be refused for its shape, or an accepted one of several steps; by content.",
 3200, 200000, T_MODEL, "Acceptance decided both ways on the explored sequences. " + SIM)

prop("P25", "Route quotes are the pools' quotes composed, and match execution",
 "Simulating a route gives exactly the result of simulating its pools one after the other, and reverse simulating it exactly the result of reverse simulating them from last to first, failing exactly when a step fails or none is given; and executing the route at once, each pool visited once, pays exactly the simulated amount.",
 ["histories", "inputs"], "every route of one to four steps in every reachable state, every amount, forward and backward",
 "Tests simulate one route on round reserves; composition at extreme ratios and in the reverse direction is not sampled.",
 [RO, QU], [("simulate_swap_operations, reverse_simulate_swap_operations", f"{RO}: simulate_swap_operations, reverse_simulate_swap_operations"), ("simulate queries", QU)],
 H + "Every route is quoted in both directions before it runs and compared with the pools' own quotes and with its execution. Non-trivial: a positive quote; by route and amounts.",
 2400, 140000, T_HIST, "Equality on each explored route. " + SIM)

prop("P26", "Tokens are created only with valid parameters, and exactly as asked",
 "A token is created exactly when its name has 3 to 50 bytes, its symbol 3 to 12 letters or hyphens, its decimals are at most 18, its initial accounts are valid and listed once, the initial supply fits 128 bits and does not exceed the minting cap, and the minter is valid. It then states exactly these facts, the listed balances and their sum as supply, and minting can fill the cap but not exceed it.",
 ["inputs", "configurations"], "every name, symbol, decimals, initial balances, minter and cap, above all at the limits",
 "Tests create a token with one set of parameters and a few invalid ones; every byte of a symbol and every limit need generated inputs.",
 [TO, TK], [("validation", f"{TO}: instantiate; {TK}: validate")],
 "Parameters on and around every limit (lengths in bytes with multi-byte characters, characters next to the allowed ranges, caps next to the initial supply, repeated and invalid accounts); the outcome and every view are compared with the rules. Non-trivial: a created token; by message.",
 20000, 800000, T_MODEL, "Acceptance decided both ways on the explored parameters. " + SIM)

prop("P27", "The token keeps an exact ledger of balances, supply and allowances",
 "Transfers, burns, mints and their delegated variants are accepted exactly when the account has the balance, the spender an unexpired sufficient allowance, or the sender the minting right and room under the cap, and then change exactly the named balances, supply and allowance; name, symbol, decimals and minter never change otherwise, nobody can set marketing information, and the holders' balances always add up to the supply.",
 ["histories", "inputs"], "every history of token operations over several tokens, accounts and expiries, mixed with pool operations",
 "Tests call each message once; sequences over expiring allowances, minter changes and caps are not sampled.",
 [TO, TK], [("delegation to the standard ledger", f"{TO}: execute, query")],
 H + GATE + "Allowances (with expiry), minter and views are read back. Non-trivial: an accepted token operation; by operation and balances.",
 8000, 400000, T_MODEL, "Model equality on the explored histories. " + SIM, state=[("token ledger", "balances, allowances, supply, minter", TO)])

prop("P28", "Wide arithmetic is exact or fails, and never wraps",
 "Sums, differences, products, quotients and multiply-then-divide of 256-bit integers and 18-digit decimals give exactly the mathematical result rounded down to the unit, or abort; they always abort when the result is negative, undefined or does not fit, and give the result whenever it and the intermediate product fit 256 bits. Comparison, assignment forms and square roots agree.",
 ["inputs"], "all operands of up to 256 bits, above all at limb, unit and overflow boundaries",
 "Tests check small constants; carries across limbs and overflow boundaries are not sampled.",
 [MA], [("bignumber operators", MA)],
 "Operands on limb, power-of-ten and overflow boundaries; each operation runs on the real library and on an independent exact big integer. Non-trivial: an exact result with an operand over 64 bits; by operation and operands.",
 60000, 4000000, "runtime monitoring: differential monitor against an independent exact big-integer oracle", "Exact comparison for every explored operand pair; the oracle's own arithmetic is self-tested at start.")

prop("P29", "Numbers survive texts and conversions unchanged",
 "Writing a 256-bit integer or decimal as text or JSON and reading it back gives the same value, decimal texts are canonical, texts with more than 18 fractional digits, too large or malformed are refused, and conversions to and from the 128-bit types are exact or refused and never truncate.",
 ["inputs"], "all values and texts up to and beyond 256 bits",
 "Tests convert a few constants; values with zeros in particular places and values just too large are not sampled.",
 [MA], [("Display, FromStr, serde, From conversions", MA)],
 "Random values and texts (well-formed, too long, too large, malformed) against an independent exact printer and parser. Non-trivial: a successful round trip of a value over 64 bits or a text with a fraction; by content.",
 60000, 4000000, "runtime monitoring: round-trip and differential monitor against an independent exact printer and parser", "Exact comparison for every explored value and text.")

prop("P30", "Every operation is all or nothing when any part of it fails",
 "If any message or query that an operation triggers fails, at whatever position, the whole operation fails and leaves the entire state of every contract and all balances exactly as before, and repeating it without the failure does what it would have done in the first place.",
 ["fault_sequences", "histories", "crash_points"], "every position of a failing message (before or after its own effect) and query in every operation of a history: swaps, provisions, withdrawals, routes, pool creation, migration, settings",
 "Tests never make an inner message or query fail; swallowed failures (a reply that continues, a default on a failed query) cannot show.",
 [PA, FA, RO, OPS, QU, AS], [("plain messages and success-only replies", f"{FA}: execute_create_pair, reply; {PA}: instantiate, reply"), ("queries propagate errors", QU)],
 H + "Each operation is repeated on a fork once per message (failing before and after its effect) and per query it triggers, one injected failure each. Non-trivial: an injected failure in an operation that succeeds without it; by operation and position.",
 2000, 100000, "runtime monitoring: exhaustive single-fault injection per operation with whole-state comparison", "All single faults of each explored operation (up to 40 per operation quick, 400 thorough); the chain's own rollback is trusted, the contracts' use of replies and queries is judged. " + SIM, level="fault_enumeration")

prop("P31", "Migration is for the owner alone and preserves everything",
 "Pools can be migrated only through the factory by its owner, factory and router only by their administrator; a migration moves no balance and changes no answer of any contract, and afterwards every operation has the same outcome and effect as without it.",
 ["histories", "programs"], "every history with migrations of any contract at any point; every operation right after one",
 "Tests migrate once and look at a version number; that later operations behave identically needs a comparison with the unmigrated twin.",
 [FA, PA, RO], [("migrate entries", f"{FA}: migrate; {PA}: migrate; {RO}: migrate"), ("owner check", f"{FA}: execute_migrate_pair")],
 H + "Random operations run on two forks, with and without one to three migrations just before, and their outcomes, all balances and all views are compared; strangers try every migration; a third of the cases migrate pools whose tokens or coin registrations have changed their decimals since. Non-trivial: an accepted operation compared; by operation and balances.",
 480, 25000, "runtime monitoring: differential monitor of forked executions with and without migration", "Equality on each explored fork pair; migration is to the same code under the same or another code id. " + SIM)

prop("P32", "Reported amounts are the amounts that moved",
 "For every accepted swap (each step of a route included), provision and withdrawal, the pool reports exactly one event naming the true sender, receiver and assets, and exactly the amounts that moved: offered, returned, spread and fee; deposits and created share; redeemed share and refunds.",
 ["histories", "inputs"], "every accepted operation in every history, direct, routed or delegated",
 "Tests compare attributes with the values they computed by the same code; that they equal what balances did is not checked on other inputs.",
 [PA], [("attributes", f"{PA}: swap, provide_liquidity, withdraw_liquidity")],
 H + "Every event of a pool is compared with the balance changes sampled at that pool around that very message. Non-trivial: an event compared; by its numbers.",
 4000, 240000, T_HIST, "Equality on each explored event. " + SIM)

prop("P33", "Library helpers tell and move exactly what the chain holds",
 "The shared library's lookups (balances, token facts, decimals, pools, quotes) return for any address and asset exactly what the chain and the contracts hold, and fail instead of giving a default when the thing asked about does not exist. A payment built from an asset moves exactly that amount of exactly that asset to the named recipient or fails; an attached-coin check passes exactly when the listed amount of the listed coin is attached. Turning assets and pool records into stored form and back loses nothing, and two assets are equal exactly when kind and name are.",
 ["histories", "inputs"], "every balance, asset (coins named like tokens, tokens named like coins), account, recipient and attached coins in every reachable state",
 "Tests call each helper once against a mock that answers from a table; wrong account, wrong asset, swapped fields or a default on failure do not show there.",
 [AS, QU, "packages/haloswap/src/router.rs"], [("queries", QU), ("asset conversions, comparison, payment and attached-coin check", AS)],
 H + "After operations the helpers are called on the live chain with random (also nonexistent) accounts, assets and pools and compared with the observed balance sheet and the contracts' own answers; built payments are executed on a fork. Non-trivial: a comparison of a non-zero value or an executed payment; by its content.",
 3000, 150000, "runtime monitoring: differential monitor of library calls against the observed chain state", "Equality on every explored call. " + SIM)

prop("P34", "Deployments on one chain do not touch each other",
 "Several factories with their routers and pools, and pools made without a factory, live on one chain and may pool the same assets: an operation on one writes to no contract of another and has exactly the effect it has when they are alone. A factory finds and lists exactly the pools it made, its router routes through those only, its decimals registrations count for its own pools only, its owner commands no other's pools, and a pool redeems no other pool's shares.",
 ["histories", "configurations"], "every interleaving of operations on two deployments and a pool made by hand, over shared and unshared assets in either order",
 "Tests deploy one factory and one router; that identities are taken from a contract's own state and not from messages, codes or asset names needs rivals on the same chain.",
 [FA, PA, RO, OPS], [("registry per factory", f"{FS}: PAIRS"), ("router asks its own factory", f"{OPS}: execute_swap_operation"), ("share token checked by address", f"{PA}: receive_cw20")],
 "A second deployment by another owner (same codes, other decimals, partly the same asset pairs) and a pool instantiated by hand are added to a random world; random operations on each are judged by the specification seen through that deployment, by a whole balance sheet, and by which contracts were written to. Non-trivial: an accepted operation; by content and balances.",
 1500, 80000, T_MODEL, "Agreement with the specification on the explored interleavings. " + SIM)

prop("P35", "Every operation and answer is a function of the chain's state alone",
 "Running the same operation (of a pool, the router, the factory or a token) on the same state always gives the same result: the same outcome, the same calls and events in the same order, and the same state afterwards; asking the same question gives the same answer. The block it runs in (its height, its time, the name of the chain) changes nothing, except whether a spending allowance has expired.",
 ["schedules", "configurations"], "every operation and query in every history, repeated on the same state and in arbitrary earlier and later blocks",
 "A test runs each operation once, in one block; an order taken from a hash table, or a threshold on the block, shows only when the same operation is repeated on a copy of the state or in another block.",
 [RO, PA, FA, OPS], [("counting outputs with a hash table", f"{RO}: assert_operations"), ("the block given to every entry", f"{PA}, {RO}, {FA}: env")],
 H + "Every operation (also creations, settings, registrations, migrations) is run three times on forks of the same state and once in a random other block, unless an allowance it spends expires in between; calls, events, queries made, contracts touched and the whole state are compared. Non-trivial: an accepted operation; by content and balances.",
 900, 50000, "runtime monitoring: repetition monitor on forked states, traces compared call by call", "No difference in the explored repetitions. " + SIM)

prop("P36", "Contracts of a release can be upgraded in place",
 "A factory, a router and pools deployed and used with the released code keep everything when they get this code by migration, one after the other in any order: no balance moves, every query states the same, and every later operation has the same outcome and effect as it would have had. While only some are upgraded, over tokens of the released code and with pools made before and after, all work together as specified, and all shares can be redeemed.",
 ["histories", "programs"], "every history before, between and after the upgrades, every order of upgrading, every operation right after one",
 "The tests store and read with the same code; that what an earlier version stored is still understood needs state written by that version.",
 [FA, PA, RO, FS, PS, RS, AS], [("stored settings, registry and decimals", f"{FS}: CONFIG, PAIRS, ALLOW_NATIVE_TOKENS"), ("stored pool record", f"{PS}: PAIR_INFO; {AS}: PairInfoRaw"), ("stored router settings", f"{RS}: CONFIG"), ("messages between them", "packages/haloswap/src")],
 H + "The system is deployed and used with a frozen copy of the released code (released/), its contracts are upgraded one by one in random order, and each operation after an upgrade is compared with the same operation on a fork without it (outcome, balances, all views, the registry page by page), and with the executable specification. Non-trivial: an accepted operation compared; by operation and balances.",
 700, 40000, "runtime monitoring: differential monitor of forked executions, released code against present code over one stored state", "Equality on each explored fork pair. The release is the code of /repo at f342cf9. " + SIM, state=[("stored state", "what the released code wrote", FS)])

prop("P37", "A misspelled message is refused, never half understood",
 "A message to a pool, router, factory or token (a call, an instantiation, a migration, a question, or the instruction sent along with tokens) that names an unknown operation or field, leaves a required field out, or gives a value that is none of its kind (an amount that is no whole number of 128 bits, a fraction of more than 18 digits, a code number that is none) is refused and changes nothing: a misspelled guard, minimum or receiver is never ignored. An optional field that is null means the same as one left out; the order of fields and the white space of the text mean nothing.",
 ["inputs", "histories"], "every accepted message of every history and every way to misspell it or to write it differently",
 "Tests build messages from the contract's own types, so no test ever sends a text that those types would not write: whether an unknown field is refused or silently dropped never shows.",
 [MP, MF, MR, MT, AS, PA, FA, RO], [("message formats", f"{MP}, {MF}, {MR}, {MT}: cw_serde types"), ("assets in messages", f"{AS}: Asset, AssetInfo, CreatePairRequirements"), ("instruction of a notification", f"{PA}, {RO}: receive_cw20")],
 H + "Every accepted message (and each kind of instantiation, migration and question) is taken as a text, spoiled at a random place (also within the instruction of a notification) and sent from the same state: it must be refused and write nothing; then written another way (order of fields, white space, null or absent) it must do exactly the same, events and state compared. Non-trivial: a malformed message refused of which the original is accepted; by message and kind of damage.",
 1200, 40000, "runtime monitoring: message mutation monitor on forked states, refusal and state equality", "No malformed text was accepted and no rewriting changed anything, on those explored. " + SIM)

def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "state": [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                             "mechanism": [dict(name=n, where=w) for n, w in p["mech"]],
                             "observe_at": list(p["observe"]) or ["messages, queries and events of the deployed contracts" if p["id"] not in ("P28", "P29") else "public functions of the number library"],
                             "hook_needed": None}}
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "./check --build",
         "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "One harness crate (harness/) drives the real contracts on a multi-contract chain simulator with observation hooks that live in the harness; /repo needs no guarded hooks. ./check <id> [--tier quick|thorough] [--seed n] [--case n] rebuilds from /repo's working tree into /verif/.build and runs one property's monitors. known-findings.txt lists recorded and repaired defects."}
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    with open(f"{ROOT}/harness/src/texts.rs", "w") as f:
        f.write("// written by tools/spec.py\npub struct Text {\n    pub id: &'static str,\n    pub title: &'static str,\n    pub level: &'static str,\n    pub quick: u64,\n    pub thorough: u64,\n    pub rule: &'static str,\n}\npub static TEXTS: &[Text] = &[\n")
        for p in P:
            f.write("    Text { id: %s, title: %s, level: %s, quick: %d, thorough: %d, rule: %s },\n" % (
                json.dumps(p["id"]), json.dumps(p["title"]), json.dumps(p["level"]), p["quick"], p["thorough"], json.dumps(p["rule"])))
        f.write("];\n")
main()
