#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
L='programs/core/src/lib.rs'; C='programs/core/src/context.rs'; S='programs/core/src/states/'; M='programs/core/src/libraries/'
P=[]
def prop(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

UNIT="The Rust unit tests exercise single library functions and account structs on hand-picked values; no instruction is ever executed by them. The TypeScript tests run one scripted session on a validator."

prop("C01","Pools are solvent: everybody can always withdraw all that is owed",
"At every moment each vault of a pool holds at least the sum of what all positions could withdraw, what they are already owed and the uncollected protocol fees. The surplus beyond that never shrinks through any operation. From every reachable state all liquidity providers and the protocol can withdraw everything, in any order, and every such withdrawal is accepted.",
["histories","inputs","configurations"],
"all histories of deposits, withdrawals, swaps, NFT operations, fee changes and collections by many users on pools of all fee tiers and spacings, ending in a complete exit",
UNIT+" Solvency is a sum over all positions after an arbitrary history with rounding in every step.",
[L,C,S+'pool.rs',S+'position.rs',M+'sqrt_price_math.rs',M+'swap_math.rs'],
[("amounts paid in rounded up, paid out rounded down",M+"sqrt_price_math.rs: get_amount_*_delta_signed"),("balance checks after the callbacks",L+": mint, swap"),("payouts limited to tokens owed",L+": collect, collect_protocol")],
[("vault balances","tokens held by the pool"),("tokens owed, liquidity of positions, protocol fees","claims on the vaults")])

prop("C02","Active, per-tick and per-position liquidity always agree",
"The active liquidity of a pool is the sum of the liquidity of all positions whose range contains the current tick. Each tick's gross and net liquidity are the sums over the positions that begin or end there, and a tick is marked in the bitmap exactly when its gross liquidity is not zero. A position's liquidity is what was deposited into it minus what was withdrawn.",
["histories","inputs","configurations"],
"all histories of deposits, withdrawals and swaps across ticks, with overlapping and nested ranges",
UNIT+" The relation ties accounts of the pool, many ticks, bitmaps and positions together after a history.",
[L,S+'tick.rs',S+'tick_bitmap.rs',S+'position.rs',M+'liquidity_math.rs'],
[("tick and position updates",L+": _update_position, _modify_position"),("net liquidity applied when crossing",L+": swap; "+S+"tick.rs: cross"),("bitmap flips",L+": _update_position")],
[("liquidity, liquidity_gross, liquidity_net, bitmap words","the redundant records of liquidity")])

prop("C03","Price, tick and bounds are always consistent",
"The recorded tick of a pool is always the tick of its price, except directly on a tick boundary after a downward move, where it is one less. The price stays within the legal range, moves only by swaps, only in the direction of the swap and never beyond the swap's price limit.",
["histories","inputs","configurations"],
"all histories of swaps in both directions with all amounts and price limits, starting at prices over the whole range",
UNIT+" Price and tick are updated in separate branches of the swap loop, which no test executes.",
[L,M+'tick_math.rs',M+'swap_math.rs'],
[("price and tick update per step",L+": swap"),("limit check",L+": swap (SPL)")],
[("sqrt_price_x32, tick","price and tick of the pool")])

prop("C04","Swaps exchange exactly the amounts defined by liquidity, fee and limit",
"A swap consumes the initialised price ranges one after the other in its direction, and takes and gives exactly the amounts that the constant product formula, the fee rate and the rounding rules (always in favour of the pool) define, until the amount is used up or the price limit is reached. Final price, tick, active liquidity, fee counters and token movements are the ones that follow; a swap that is valid, affordable and representable in the number formats is accepted, and one that is not leaves everything unchanged.",
["inputs","histories","configurations"],
"all swaps, exact input and exact output, both directions, every amount up to the limits of 64 bits, every limit price, on all reachable pool states and fee tiers",
UNIT+" The swap loop (bitmap words, empty words, crossing, boundaries) is not executed by any Rust test.",
[L,M+'swap_math.rs',M+'sqrt_price_math.rs',S+'tick_bitmap.rs',S+'tick.rs'],
[("swap loop",L+": swap"),("single step",M+"swap_math.rs: compute_swap_step"),("next initialised tick",S+"tick_bitmap.rs: next_initialized_bit")])

prop("C05","There is no free lunch: a lone party cannot gain from others' deposits",
"Whatever one party does alone (trades, deposits, withdrawals, NFT operations, in any order and any number), once it has withdrawn everything and the prices are back where they were, it does not own more of any token than before plus what was donated to pools. In particular trading forth and back, and depositing and withdrawing right away, never gains.",
["histories","inputs","configurations"],
"all sequences of operations of one party on pools with the liquidity of others, at all prices and tiers",
UNIT+" The statement quantifies over all strategies.",
[L,M+'swap_math.rs',M+'sqrt_price_math.rs',M+'full_math.rs'],
[("rounding in favour of the pool",M+"sqrt_price_math.rs, "+M+"swap_math.rs"),("fees only for liquidity present when they were paid",S+"position.rs: update")],
None,["token balances of the party before and after"])

prop("C06","Trading fees go to the providers in range, in proportion to their liquidity",
"For each swap step the fee minus the protocol's share is divided among the positions whose range contains the price during that step, in proportion to their liquidity, and nobody else is credited anything. Over any history a position receives that sum up to rounding (never more than its exact share). This holds for positions held directly and, within a range, for each of the NFTs that share it.",
["histories","inputs","configurations"],
"all histories of swaps that cross, enter and leave ranges, with deposits, withdrawals and collections in between; fee counters per unit of liquidity that do not overflow 64 bits between two settlements",
UNIT+" Fee growth is relative bookkeeping (inside, outside, below, above) whose errors show only in sequences of crossings and updates.",
[L,S+'tick.rs',S+'position.rs',S+'tokenized_position.rs'],
[("fee growth per unit of liquidity",L+": swap"),("inside/outside growth",S+"tick.rs: get_fee_growth_inside, cross, update"),("settlement",S+"position.rs: update; "+L+": increase_liquidity, decrease_liquidity, collect_from_tokenized")],
[("fee_growth_global, fee_growth_outside, fee_growth_inside_last","fees per unit of liquidity")])

prop("C07","The oracle accumulates exactly the tick and liquidity that were active",
"Each recorded observation carries, for its time, the integral of the tick and of the seconds per active liquidity since the pool was created, with the values that were active during each interval and not those of the operation that records it. At most one observation is recorded per second, in ring order, overwriting the oldest; growing the capacity never loses or changes recorded observations and takes effect when the ring reaches its end.",
["histories","inputs","schedules"],
"all histories of swaps and liquidity changes at arbitrary times, with capacity increases at any point",
UNIT+" The oracle tests build observation structs by hand and never connect them to swaps or to the passage of time in a pool.",
[L,S+'oracle.rs',S+'pool.rs',C],
[("transform and update",S+"oracle.rs"),("which slot is read and written",L+": _modify_position, swap; "+S+"pool.rs: next_observation_index"),("capacity",L+": increase_observation_cardinality_next")],
[("observation accounts, observation_index, cardinality, cardinality_next","the ring")])

prop("C08","Range snapshots measure exactly the time spent inside the range",
"The difference between two snapshots of a range that stays initialised in between equals, up to the rounding of the accumulators, the seconds, the tick-seconds and the seconds per unit of liquidity accumulated while the current tick was inside of that range. This holds regardless of how often the price crossed the boundaries.",
["histories","schedules","inputs"],
"all histories of swaps at arbitrary times between two snapshots, for every initialised range",
"Existing tests check single snapshots on hand-made structs; the statement relates two snapshots over an arbitrary history of crossings.",
[L,S+'pool.rs',S+'tick.rs',S+'oracle.rs'],
[("snapshot",S+"pool.rs: snapshot_cumulatives_inside"),("outside values flipped on crossing",S+"tick.rs: cross"),("initial outside values",S+"tick.rs: update")])

prop("C09","Only the owner administers the protocol",
"Changing the owner, enabling fee tiers, setting the protocol's fee share and collecting protocol fees succeed only in a transaction signed by the current owner recorded in the one factory account. Whatever other signers, missing signatures or forged, stale or substituted accounts are supplied, such a call has no effect; after a transfer only the new owner is entitled.",
["inputs","histories","programs"],
"all administrative instructions with all combinations of signers, forged factory accounts and previous owners, interleaved with legitimate transfers",
UNIT+" Authority has to hold against adversarial account lists.",
[C,L,S+'factory.rs'],
[("address = factory_state.owner",C+": SetOwner, EnableFeeAmount, SetFeeProtocol, CollectProtocol"),("factory seeds",C)],
[("factory_state.owner","who administers")])

prop("C10","Only the owner of a position or NFT (or its delegate) controls it",
"A withdrawal or payout from a position succeeds only with the signature of that position's owner. For an NFT position, removing liquidity and collecting succeed only with the signature of the current holder of the NFT or of a delegate the holder approved for it; former holders, other NFT holders and the program's custodian account cannot be used to get at it, and tokens are taken only from accounts whose authority signed.",
["inputs","histories","programs"],
"all user operations tried by every other party in all reachable states, with transferred, delegated and revoked NFTs and crafted account lists",
UNIT+" Authority has to hold against adversarial account lists, transfers and delegations.",
[C,'programs/core/src/access_control.rs',L],
[("holder or delegate check","programs/core/src/access_control.rs: is_authorized_for_token"),("signer owner in position address",S+"pool.rs: validate_position_address; "+C),("custodian is a PDA that signs only inside",L)])

prop("C11","Substituted accounts are rejected and pools are isolated",
"A call in which any account is replaced by another one (of another pool, position, tick, token, user, type or program, or a forged one) either fails without effect or has exactly the effect of the call without the replacement, apart from the freely chosen recipient of tokens. An operation on one pool changes no account of another pool.",
["inputs","programs","histories"],
"all instructions, all account slots (also several at once), all replacements available in a market of several pools, positions and NFTs",
UNIT+" The account lists are part of the untrusted input; the number of combinations is large and each missing check is exploitable.",
[C,L,S+'pool.rs',S+'tokenized_position.rs','programs/core/src/access_control.rs'],
[("address validation",S+"pool.rs: validate_*_address"),("account constraints and seeds",C),("NFT bound to its pool and range",S+"tokenized_position.rs: validate_range")])

prop("C12","Every NFT position accounts exactly for its own share",
"The liquidity recorded for an NFT is what was deposited through it minus what was removed through it, and the sum over the NFTs of a range never exceeds what the protocol holds for them there. Removing liquidity credits exactly what that liquidity is worth; an NFT is owed that and its own fees, never a share of another NFT's, and collecting pays what was asked for limited by what it is owed.",
["histories","inputs"],
"all histories of minting, increasing, decreasing, collecting and transferring several NFTs of the same and different ranges, mixed with swaps and direct positions",
UNIT+" NFT instructions are never executed by them; sharing of one core position by several NFTs only shows in histories.",
[L,S+'tokenized_position.rs',S+'position_manager.rs',C],
[("NFT bookkeeping",L+": mint_tokenized_position, increase_liquidity, decrease_liquidity, collect_from_tokenized")],
[("tokenized position account","liquidity, fee growth and tokens owed of the NFT")])

prop("C13","Each position NFT is unique, and its metadata is truthful and final",
"Minting a position creates exactly one indivisible token in the recipient's account and a position record bound to it; afterwards no further token of that mint can come into existence and the record cannot be created or rebound again. Metadata, which anyone may attach once, names the mint, is immutable, lists the protocol as its only verified creator, and attaching it gives up the right to mint for good.",
["histories","inputs"],
"all histories of minting, transferring, re-minting attempts and metadata creation",
UNIT+" None of these instructions is executed by them.",
[L,C,S+'tokenized_position.rs'],
[("mint, record and supply",L+": mint_tokenized_position; "+C+": MintTokenizedPosition"),("metadata and revocation of the mint authority",L+": add_metaplex_metadata")])

prop("C14","Deposits and swaps must be paid in full, and no pool is entered while locked",
"Whatever program is called back for the payment, a deposit or swap takes effect only if afterwards each vault holds at least what it held before plus the amount due; otherwise nothing changes. While a pool waits for a payment every operation that changes it is refused, and after each operation it is unlocked again.",
["programs","inputs","histories"],
"all behaviours of a foreign callback program: paying exactly, too little, too much, into one vault only, and calling back into the same pool or other pools",
UNIT+" Callbacks are never made in them.",
[L,C],
[("balance before and after",L+": mint (M0, M1), swap (IIA)"),("lock",L+": pool.unlocked checks (LOK)")],
[("pool.unlocked","re-entrancy lock")])

prop("C15","Creation yields valid accounts, once, and refuses everything invalid",
"Fee tiers, pools, ticks, bitmap words, positions and the factory can each be created only once, at the one address derived from what they stand for, with the values given and everything else empty; unordered tokens, unknown tiers, prices, ticks or words out of range, ticks off the spacing and reversed ranges are refused. Anybody may create them, and nothing created is ever reset by another creation.",
["inputs","configurations","histories"],
"all creation calls with valid and invalid arguments, in every order and repeated, interleaved with use",
UNIT+" They test the argument checks in isolation, at best.",
[L,C,S+'fee.rs',S+'pool.rs',S+'tick.rs',S+'tick_bitmap.rs',S+'position.rs'],
[("init constraints and seeds",C),("argument checks",L+": check_tick, check_ticks, enable_fee_amount, create_and_init_pool, init_bitmap_account")])

prop("C16","Tick accounts are reset when unused and closed only then",
"A tick account carries data exactly as long as some position uses it: when its last liquidity leaves it is cleared, and when it is used again it starts anew with the values of that moment. It can be closed only while unused, giving the rent to whoever is named, and positions that remain are never affected by that.",
["histories","inputs"],
"all histories of deposits, complete withdrawals, closings and re-creations of ticks shared by several positions, with swaps in between",
UNIT+" The life cycle spans several instructions.",
[L,C,S+'tick.rs'],
[("clear on flip",L+": _update_position; "+S+"tick.rs: clear, is_clear"),("close constraint",C+": CloseTickAccount")])

prop("C17","The protocol's fee share is exact and only collectable once",
"Of the fee of each swap step the protocol is credited exactly the fraction set for the pool (nothing else of the providers' or traders' money), rounded down, in the token that was paid in. Collecting pays at most what was credited and not yet collected, to the named accounts, and reduces the credit by what was paid; only fractions between a half and a tenth can be set, and changing it affects later swaps only.",
["histories","inputs","configurations"],
"all histories of swaps, changes of the fraction and collections with any requested amounts",
UNIT+" Swaps and collections are not executed by them.",
[L,C,S+'factory.rs',S+'pool.rs'],
[("protocol share per step",L+": swap"),("collection",L+": collect_protocol"),("range of the fraction",L+": set_fee_protocol")],
[("protocol_fees_token_0/1","credit of the protocol")])

prop("C18","User limits are always respected: minimum, deadline, price limit, desired",
"An operation that is accepted never gives less than the minimum output or the minimum amounts stated, never takes more than the desired amounts or the given input, never moves the price beyond the limit, and never executes after its deadline; if a limit cannot be met the whole operation has no effect. Limits that are met do not make an operation fail.",
["inputs","histories"],
"all operations that take limits, with limits at, just below and just above what is reached, at all times around the deadline",
UNIT+" The instructions with limits are not executed by them.",
[L,'programs/core/src/access_control.rs',M+'liquidity_amounts.rs'],
[("deadline","programs/core/src/access_control.rs: check_deadline"),("minimum output",L+": exact_input_single, exact_input"),("minimum amounts",L+": add_liquidity, decrease_liquidity"),("price limit",L+": swap")])

prop("C19","A multi-hop swap equals its hops done one after the other",
"Swapping along a path of pools in one call moves exactly the tokens, and leaves exactly the pools, that the same swaps done one by one with each hop's output as the next hop's input would. If any hop fails or the final output is below the minimum, no hop has taken effect; intermediate tokens neither remain with nor are taken from the trader.",
["inputs","histories","configurations"],
"all paths of one to three hops over all reachable states of several pools, all amounts",
UNIT+" exact_input is not executed by them.",
[L,C,S+'swap_router.rs'],
[("hops and remaining accounts",L+": exact_input, exact_input_internal")],
None,["balances and all accounts after the path and after the single swaps"])

prop("C20","Events report exactly what happened",
"Every accepted operation that changes owner, fee tiers, fee fraction, pools, observation capacity, liquidity, positions, price or collected amounts emits its event once, and every field of it (accounts, ticks, amounts, liquidity, price, tick) equals what actually changed. Refused operations leave no event.",
["histories","inputs"],
"all accepted operations in all histories, decoded from the transaction log and compared with the state change",
UNIT+" Events are not observed by any Rust test.",
[L,S+'pool.rs',S+'factory.rs',S+'position_manager.rs',S+'oracle.rs'],
[("emit!",L)])

prop("C21","Deposits and withdrawals exchange exactly the worth of the liquidity",
"Adding liquidity costs exactly what that liquidity is worth at the current price in the range, rounded up; removing it credits exactly that, rounded down, of the two tokens according to where the price lies relative to the range. A payout transfers exactly the smaller of what was asked and what is owed, per token, and withdrawing more liquidity than there is fails.",
["inputs","histories","configurations"],
"all deposits, withdrawals and payouts with all amounts up to the limits of 64 bits, ranges below, around and above the price",
UNIT+" They compute single amounts; the instruction path with its case distinction on the price is not executed.",
[L,M+'sqrt_price_math.rs',S+'position.rs'],
[("amounts by case",L+": _modify_position"),("credit",L+": burn"),("payout",L+": collect")])

prop("C22","Full-precision multiply-divide is exact or refused",
"Multiplying and dividing with rounding down or up gives the exact mathematical result for all operands of 64 and 128 bits whenever it fits, also if the intermediate product does not, and reports overflow otherwise. Rounded-up division and signed changes of an unsigned amount are exact or refused likewise.",
["inputs"],"all operands, including those whose quotient just fits or just does not",
"The tests check chosen operands and a few random ones; correctness concerns all of the operand space, in particular its edges.",
[M+'full_math.rs',M+'unsafe_math.rs',M+'liquidity_math.rs',M+'big_num.rs'],
[("mul_div_floor, mul_div_ceil",M+"full_math.rs"),("div_rounding_up",M+"unsafe_math.rs"),("add_delta",M+"liquidity_math.rs")])

prop("C23","Tick and price convert exactly, monotonically and inversely",
"The price of each of the legal ticks is the square root of 1.0001 to that tick within the precision of the format, strictly increasing. The tick of a price is the greatest tick whose price is not above it, for every legal price; everything outside of the legal ranges is refused.",
["inputs"],"all ticks, and all prices",
"The tests check a handful of ticks and prices; off-by-one errors may affect single ones.",
[M+'tick_math.rs'],
[("get_sqrt_ratio_at_tick, get_tick_at_sqrt_ratio",M+"tick_math.rs")])

prop("C24","The price after an input or output is exact and never favours the trader",
"Adding an input to, or taking an output from, a liquidity at a price gives exactly the price the constant product formula defines, rounded so that the trader pays at least and receives at most what the move is worth; the price never moves the wrong way. Outputs that exceed what the liquidity holds are refused, and amounts whose products exceed 64 bits are handled.",
["inputs"],"all prices, liquidities and amounts, both tokens, input and output",
"The tests check chosen values; rounding and overflow branches depend on all operands.",
[M+'sqrt_price_math.rs'],
[("get_next_sqrt_price_from_*",M+"sqrt_price_math.rs")])

prop("C25","Amounts of a price move and liquidity for amounts are exact",
"The amount of either token between two prices for a liquidity is the exact value rounded in the requested direction, regardless of the order of the prices, and refused if it does not fit. The liquidity granted for amounts is the largest that the defining formulas give, and never costs more than those amounts.",
["inputs"],"all pairs of prices, liquidities and amounts",
"The tests check chosen values; rounding and overflow branches depend on all operands.",
[M+'sqrt_price_math.rs',M+'liquidity_amounts.rs'],
[("get_amount_*_delta_*",M+"sqrt_price_math.rs"),("get_liquidity_for_*, get_*_for_liquidity",M+"liquidity_amounts.rs")])

prop("C26","A single swap step is exact and bounded",
"One step of a swap moves the price towards its target and never beyond, takes at most the remaining input including the fee, gives at most the remaining output, and charges a fee of at least the rate on what is taken. It either reaches the target or uses up what remains, and gives the exact amounts of the defining formulas.",
["inputs"],"all prices, targets, liquidities, remaining amounts of either sign and fee rates",
"The tests check a few chosen steps; the four branches and their roundings depend on all operands.",
[M+'swap_math.rs'],
[("compute_swap_step",M+"swap_math.rs")])

prop("C27","The tick bitmap finds the right neighbour and bits are placed uniquely",
"For every word and start position the search yields the nearest marked bit at or below, or at or above, it and says whether there is one; flipping changes exactly the addressed bit and twice is neutral. Every tick maps to a unique word and bit, reversibly, also for negative ticks.",
["inputs"],"all words and positions, all tick indices",
"The tests check a few words and positions.",
[S+'tick_bitmap.rs',M+'bit_math.rs'],
[("position, flip_bit, next_initialized_bit",S+"tick_bitmap.rs"),("most and least significant bit",M+"bit_math.rs")])

root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open(root+'/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
