#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts are edited)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})
XP="contracts/pool/src/contract.rs"; XS="contracts/pool/src/storage.rs"
SP="contracts/pool_stable/src/contract.rs"; SM="contracts/pool_stable/src/math.rs"; SS="contracts/pool_stable/src/storage.rs"
ST="contracts/stake/src/contract.rs"; STS="contracts/stake/src/storage.rs"; STD="contracts/stake/src/distribution.rs"
SR="contracts/stake_rewards/src/contract.rs"; SRD="contracts/stake_rewards/src/distribution.rs"; SRS="contracts/stake_rewards/src/storage.rs"
FA="contracts/factory/src/contract.rs"; FS="contracts/factory/src/storage.rs"; FU="contracts/factory/src/utils.rs"
MH="contracts/multihop/src/contract.rs"; MHS="contracts/multihop/src/storage.rs"; MHU="contracts/multihop/src/utils.rs"
TR="contracts/trader/src/contract.rs"; TRS="contracts/trader/src/storage.rs"
VE="contracts/vesting/src/contract.rs"; VS="contracts/vesting/src/storage.rs"; VU="contracts/vesting/src/utils.rs"
TK="contracts/token/src/contract.rs"; TA="contracts/token/src/allowance.rs"; TB="contracts/token/src/balance.rs"
CU="packages/curve/src/lib.rs"; DE="packages/decimal/src/decimal.rs"; PU="packages/phoenix/src/utils.rs"

p("C01","Constant-product swaps pay the curve price, less exactly the fee",
  "In a constant-product pool with reserves x and y, selling dx units takes out of the curve a gross amount that differs from x·y's exact answer y·dx/(x+dx) by less than one unit, is never more than the spot price dx·y/x, and never exceeds the reserve y. The fee is the floor of the gross amount times the configured fee rate, the trader receives exactly the gross amount minus that fee, and the fee recipient receives exactly the fee.",
  ["inputs","histories"],"every positive reserve pair, offer amount and fee rate in 0..=100%, and both swap directions",
  "Unit tests fix a handful of round reserves and amounts; rounding or direction errors appear only for particular remainders among 128-bit amounts.",
  [XP,DE],[("swap pricing",XP+": compute_swap, do_swap"),("fee rate arithmetic",DE+": Mul<Decimal>, Decimal::bps")],
  [("reserves","recorded amount of each asset owned by the pool",XS+": ReserveA/ReserveB")],["swap"])
p("C02","Constant-product swaps settle only within the trader's limits",
  "A constant-product swap completes only if the seller authorised it, the offer is positive and in a pool asset, the ledger time has not passed the seller's deadline, the amount delivered is at least the seller's minimum, and the pool's fee does not exceed the seller's fee cap. The loss to price impact relative to the amount before impact never exceeds (compared to 18 digits) the seller's maximum spread (or the pool's maximum when none is given), and a requested spread outside zero to the pool's maximum is refused.",
  ["inputs"],"every pool state, ledger time and combination of present or absent limits",
  "Tests check one violation of each limit at a time; they cannot cover the boundary values and combinations of optional limits.",
  [XP],[("limit checks",XP+": swap, do_swap, assert_max_spread")],None,["swap"])
p("C03","Pool reserves move exactly with the tokens that move",
  "For both pool types, every operation that completes changes the recorded reserve of each asset by exactly the tokens of that asset which moved into or out of the pool (a deposit also counts in what was sent to the pool directly before it), so recorded reserves never exceed the tokens the pool really holds when the pool's tokens follow the token standard. No operation other than providing liquidity, swapping or withdrawing changes reserves or moves the pool's tokens.",
  ["inputs","histories"],"every operation of both pool contracts from every state in which the recorded reserves are covered, with any amounts",
  "The tests follow a few scripted histories; a wrong asset, sign or stale balance shows only in particular directions or sequences.",
  [XP,XS,SP,SS],[("constant-product reserve updates",XP+": provide_liquidity, do_swap, withdraw_liquidity"),("stable reserve updates",SP+": provide_liquidity, do_swap, withdraw_liquidity")],
  [("reserves","recorded amount of each asset",XS+", "+SS)],["query_pool_info","token balances"])
p("C04","Depositing never dilutes existing liquidity providers",
  "Providing liquidity to a constant-product pool requires the depositor's authorisation, takes of each asset not more than what the depositor desired and, in a pool that already has liquidity, not less than the depositor's minimums, and gives shares not worth more than the deposit: in a pool that holds both assets, each share is backed by at least as much of both assets after it as before. The first deposit must be worth more than 1000 shares and locks 1000 of them for good in the pool itself.",
  ["inputs","histories"],"every pool state with positive or empty reserves, desired/minimum amounts, slippage and deadline",
  "Share minting rounds; whether rounding can favour the depositor is a statement about all 128-bit amounts.",
  [XP,XS,DE],[("deposit amounts",XS+": get_deposit_amounts"),("share minting",XP+": provide_liquidity")],None,["provide_liquidity"])
p("C05","Withdrawals pay at most the pro-rata share and at least the minimums",
  "For both pool types, withdrawing requires the owner's authorisation and a live deadline, takes exactly the stated shares from the owner and burns them, and pays of each asset at most reserve times shares divided by total shares, short of it by less than one unit plus one part in 10^18 of the reserve, and never less than the owner's minimums. The amounts reported are the amounts paid.",
  ["inputs","histories"],"every pool state, share amount and pair of minimums",
  "Tests use proportional amounts without remainders; over- or under-payment depends on the rounding of arbitrary ratios.",
  [XP,SP,DE],[("withdrawal",XP+": withdraw_liquidity; "+SP+": withdraw_liquidity"),("ratio rounding",DE+": from_ratio, Mul")],None,["withdraw_liquidity"])
p("C06","Recorded total shares move exactly with LP tokens minted and burned",
  "In both pool types, the recorded total of liquidity shares changes in every operation by exactly the LP tokens the pool mints minus those it burns, and no operation other than providing or withdrawing liquidity mints, burns or changes it. The only exception is the stable pool's initial 1000 shares, which are neither minted nor recorded.",
  ["inputs","histories"],"every operation of both pool contracts, from every state",
  "Tests compare totals in a few scenarios; a branch that mints without recording is hit only by specific pool states.",
  [XP,XS,SP,SS],[("mint/burn bookkeeping",XS+": mint_shares, burn_shares; "+SS+": mint_shares, burn_shares")],
  [("total shares","recorded LP share supply",XS+": TotalShares; "+SS+": TotalShares")],["query_total_issued_lp"])
p("C07","A swap quote equals what the swap then pays",
  "For both pool types, the quoted swap outcome (amount received, fee and price impact) is the outcome a swap of the same amount has in the same state, a quote changes nothing, and the reported total is the sum of its parts. A quote for shares reports what withdrawing those shares would pay.",
  ["inputs","histories"],"every pool state, offered asset and amount",
  "The tests compare quote and execution for a couple of states; the two go through separate code that can drift apart for one direction or asset.",
  [XP,SP],[("quotes",XP+": simulate_swap, query_share; "+SP+": simulate_swap, query_share"),("execution",XP+": do_swap; "+SP+": do_swap")],None,["simulate_swap","swap","query_share"])
p("C08","Stable swaps keep the pool on its invariant curve",
  "A stable-pool swap computes the new balance of the bought asset as the solution of the amplified invariant for the pool's current D, at full precision and to within the solver's stated tolerance, or fails; the seller gets the fall in that balance (rounded down to the solver's precision) converted into the bought asset's own decimals and rounded down, minus exactly the fee, and never more than the reserve. This holds for any combination of the two assets' decimals.",
  ["inputs","histories"],"every pair of reserves, amplification, decimals up to 18 and offer amount for which the pool's solver answers",
  "The tests only use assets with equal decimals and a few amounts; the solver's result for other scales and imbalances is never compared with the equation.",
  [SP,SM],[("invariant solver",SM+": compute_d, calc_y"),("swap amounts and scaling",SP+": compute_swap, do_swap")],None,["swap","simulate_swap"])
p("C09","Stable-pool operations settle only within the user's limits",
  "In a stable pool a swap completes only with the seller's authorisation, within the deadline, fee cap, spread and minimum-received limits the seller gave (and never beyond the pool's maximum spread); a deposit completes only with the depositor's authorisation, within the deadline, for positive amounts of both assets taken exactly as stated, and only if it yields at least the minimum shares asked for.",
  ["inputs"],"every pool state, ledger time and combination of present or absent limits",
  "Tests exercise one limit at a time with single values; boundaries and combinations are unbounded.",
  [SP],[("limit checks",SP+": swap, do_swap, provide_liquidity, assert_max_spread")],None,["swap","provide_liquidity"])
p("C10","Stable deposits mint shares in proportion to the growth of the invariant",
  "A deposit into a stable pool that already has shares mints the floor of total shares times the relative growth of the pool's invariant D (to 18 digits), so existing holders are not diluted; the first deposit mints D in share units less 1000. Nothing else mints shares.",
  ["inputs","histories"],"every pool state, amplification, decimals and deposit",
  "Tests check the share count of a few deposits against constants.",
  [SP,SM],[("share minting",SP+": provide_liquidity"),("invariant",SM+": compute_d")],None,["provide_liquidity"])
p("C11","Pool fees and limits are always valid percentages set only by the admin",
  "In both pool types, from initialisation on, the swap fee and the slippage, spread and referral limits always lie between 0 and 100 percent. They, the fee recipient, the admin and the amplification change only in a call authorised by the current admin, each to exactly the value given, with everything not given left as it was.",
  ["inputs","histories"],"every call of every entry point of both pools, from every state with valid settings",
  "The tests try one out-of-range value on some parameters; they cannot show that no path of any entry point stores one or changes a setting without the admin.",
  [XP,SP,PU],[("validation",PU+": validate_bps!"),("admin gate",XP+": update_config, upgrade; "+SP+": update_config, upgrade")],
  [("pool settings","fees, limits, recipient",XS+": Config; "+SS+": Config")],["query_config"])
p("C12","Only the stored admin can upgrade a contract or change its settings",
  "In every contract of the system, replacing the contract's code or changing its admin or its protected settings succeeds only in a call authorised by the admin stored before the call. For the vesting contract's minter the current minter (or, when there is none, the admin) is the authority instead.",
  ["inputs","histories"],"every entry point of every contract, with any caller and any state",
  "A missing check has no effect in tests that authorise everything; it must be shown absent on every path of every entry point.",
  [XP,SP,ST,SR,FA,MH,TR,VE,TK],[("admin gates","require_auth on the stored admin in each contract's update/upgrade/update_* functions")],None,["update","upgrade","update_config"])
p("C13","Every contract can be initialised once only",
  "In every contract of the system initialisation succeeds only while the contract is not yet initialised and leaves it initialised, and no other operation ever makes it uninitialised again. A second initialisation never changes state.",
  ["inputs","histories"],"every entry point of every contract, from every state, with any arguments",
  "Tests call initialise twice in a row; they cannot show that no other call reopens initialisation.",
  [XP,SP,ST,SR,FA,MH,TR,VE],[("initialised flag","is_initialized/set_initialized guards in each contract")],None,["initialize"])
p("C14","LP and reward tokens are conserved and move only with authority",
  "In the token contract a holder's balance falls only in a call authorised by that holder or by a spender within an unexpired allowance of that holder, which shrinks by exactly the amount; a transfer moves exactly the amount from one balance to the other and changes no third balance. New tokens appear only by the admin's minting, tokens disappear only by burning, amounts and balances are never negative, and every call with a negative amount fails.",
  ["inputs","histories"],"every entry point of the token contract, any holders (also equal ones), amounts, allowances and ledger numbers",
  "Tests move a few amounts between distinct accounts; self-transfers, expiry boundaries and arithmetic limits are not enumerable.",
  [TK,TA,TB],[("balances",TB+": receive_balance, spend_balance"),("allowances",TA+": read_allowance, write_allowance, spend_allowance"),("entry points",TK)],None,["transfer","transfer_from","burn","burn_from","mint","approve"])
p("C15","Stakes are custody: bonded tokens are recorded exactly and returned exactly",
  "Bonding requires the staker's authorisation and at least the minimum bond, takes exactly the stated LP tokens and records one new stake with that amount and the current time; unbonding returns exactly the amount of a recorded stake of that same user and removes just that stake. Each user's recorded total equals the sum of the user's stakes, and the contract-wide total changes by exactly the tokens bonded or unbonded.",
  ["inputs","histories"],"every number of stakes per user, amounts, timestamps and order of operations",
  "Tests use at most a few stakes with distinct values; duplicates and positions in an arbitrary list are not covered.",
  [ST,STS],[("stake list handling",ST+": bond, unbond, remove_stake"),("totals",STS+": increase_total_staked, decrease_total_staked")],
  [("stakes","per-user list of stakes and total",STS+": BondingInfo"),("total staked","sum over all users",STS+": TotalStaked")],["bond","unbond","query_staked","query_total_staked"])
p("C16","Staking rewards are paid once, by the stated formula, and only to the staker",
  "For each reward distributed at a later time than the user's last claim, the user is credited, for each of the user's stakes, the floor of stake times reward divided by the total staked recorded for that distribution, scaled by the whole days the stake had been held at the distribution (at most 60) over 60 (a ratio truncated to 18 digits), and nothing for earlier distributions. Claiming pays exactly that amount of each reward token to the claiming user, moves no other funds and marks the rewards as claimed, and the pending amount reported equals the amount a claim then pays.",
  ["inputs","histories"],"every number of stakes and distributions, every amount and timestamp order",
  "The tests have a few stakes and distributions at round times; off-by-one boundaries, order of claims and bonds, and long histories are unbounded.",
  [ST,STD,STS],[("reward computation",STD+": calculate_pending_rewards; "+ST),("claim",ST+": withdraw_rewards")],
  [("reward history","amount distributed per time and asset",STD),("last claim","time of user's last claim",STS)],["withdraw_rewards","query_withdrawable_rewards"])
p("C17","Only the manager or owner distributes rewards, fully funded and fully recorded",
  "In the staking contract, creating a reward flow or distributing a reward succeeds only when authorised by the manager or owner; distributing takes exactly the stated amount of an already registered reward token from the caller and adds exactly that amount to that token's recorded history for the current time, together with the total staked at that time. No other call changes the history or the set of reward tokens, and a reward token is never registered twice.",
  ["inputs","histories"],"every caller, amount, number of registered tokens and earlier distributions, also at the same ledger time",
  "Tests distribute at distinct times by the manager only.",
  [ST,STD],[("distribution",ST+": distribute_rewards, create_distribution_flow"),("history",STD+": save_reward_history, save_total_staked_history")],None,["distribute_rewards","create_distribution_flow"])
p("C18","Linear reward accounting never credits the past and never pays twice",
  "In the linear-distribution rewards contract, a user's withdrawable amount is the stake-weighted share of everything distributed since the user joined minus what was already withdrawn; changing a user's stake leaves rewards accrued so far unchanged, and withdrawing pays exactly the reported amount (scaled by holding time), reduces the undistributed pool by exactly the payment, and leaves nothing further to withdraw until more is distributed. State changes succeed only when authorised by the staking contract bound at initialisation, and new reward funding only by the admin, who must supply exactly the funded tokens.",
  ["inputs","histories"],"every stake, points value, correction and history of distributions",
  "Fixed-point corrections interact over histories; tests check a few of them against constants.",
  [SR,SRD,SRS],[("accounting",SRD+": withdrawable_rewards, apply_points_correction, update_rewards"),("entry points",SR)],None,["distribute_rewards","withdraw_rewards","calculate_bond","calculate_unbond","fund_distribution"])
p("C19","Vesting pays out only what the schedule has released, to its recipient",
  "A vesting claim succeeds only with the recipient's authorisation, pays exactly the part of that schedule's remaining balance that exceeds what the schedule still locks at the current time, and lowers the remaining balance by the same amount, so total payments never exceed the grant and what the schedule still locks always stays in the balance. No other operation lowers any schedule's balance or takes tokens from the contract.",
  ["inputs","histories"],"every schedule curve, time, remaining balance, index and order of claims",
  "Tests claim at a few times of a few schedules.",
  [VE,VS,VU,CU],[("claim",VE+": claim"),("released amount",VU+", "+CU+": Curve::value")],
  [("schedule balance","tokens not yet paid out of a schedule",VS+": VestingInfo")],["claim","query_available_to_claim"])
p("C20","Vesting schedules are created fully funded, validated and by the admin only",
  "Creating vesting schedules succeeds only with the admin's authorisation and takes from the admin exactly the sum of the granted amounts; each schedule is stored under the next free index of its recipient with its full amount and an untouched earlier schedules list, and its curve starts at the grant, never rises and ends at zero. Empty lists and repeated recipients in one call are refused.",
  ["inputs","histories"],"every list of schedules, of any length, and any earlier schedules of the recipients",
  "Tests create one to a few schedules; list length and index use are unbounded.",
  [VE,VS,VU],[("creation",VE+": create_vesting_schedules"),("validation",VU+": validate_vesting_schedule, check_duplications")],None,["create_vesting_schedules","query_vesting_info"])
p("C21","Vesting minting stays within the minter's capacity",
  "Vesting tokens are minted only with the current minter's authorisation, never more than the capacity left, which falls by exactly the minted amount; capacity is otherwise changed only by an update authorised by the admin, or by the authorised replacement of the minter. Minting and burning accept positive amounts only, and burning acts only on the authorising holder's own tokens.",
  ["inputs","histories"],"every capacity, amount and caller",
  "Tests mint a few amounts under and over the limit.",
  [VE,VS],[("minting",VE+": mint, burn, update_minter, update_minter_capacity")],[("minter capacity","how much may still be minted",VS+": MinterInfo")],["mint","burn"])
p("C22","Release curves are bounded, monotone when accepted, and add up",
  "A curve that passes validation as monotonically increasing (decreasing) never falls (rises) over time, its value at any time lies within the range it reports, between two steps it is the linear interpolation rounded toward the earlier step's value, and after its last step it is constant. Combining two curves gives, at every breakpoint of either curve, the sum of their values.",
  ["inputs"],"every constant, saturating-linear and piecewise-linear curve, of any number of steps, and every pair of times",
  "Tests evaluate example curves at example times.",
  [CU],[("evaluation",CU+": Curve::value, interpolate, PiecewiseLinear::value"),("validation",CU+": validate, validate_monotonic_increasing, validate_monotonic_decreasing, range"),("combination",CU+": combine")],None,["Curve::value","Curve::combine","Curve::range"])
p("C23","Fixed-point ratios and percentages are exact to the last digit",
  "Decimal arithmetic used for fees, spreads and shares truncates toward zero at 18 digits and is otherwise exact: ratios, percentages and basis points, multiplication, division, inversion, fraction access, comparison and conversion back to integers give the mathematically exact result truncated at the last digit, or fail on overflow or division by zero. No operation silently wraps.",
  ["inputs"],"every 128-bit operand",
  "Tests evaluate literals.",
  [DE],[("arithmetic",DE+": from_ratio, bps, percent, checked_*, Mul, Div, inv, atomics, to_string")],None,["Decimal"])
p("C24","The factory registers each pool once and finds it for either token order",
  "Creating a pool succeeds only with the caller's authorisation and only for a whitelisted caller, with valid percentages, ordered distinct tokens and positive stake minimums; it deploys exactly one new pool, initialises it with exactly the parameters given by the caller and the factory's stored settings, and appends it once to the list of pools. Afterwards looking the pair up in either order yields that pool, and no other pair's entry or list element changes.",
  ["inputs","histories"],"every list of pools and whitelist of any length, both pool types, any parameters",
  "Tests create a few pools; the parameters passed on are only spot-checked.",
  [FA,FS,FU],[("pool creation",FA+": create_liquidity_pool"),("registry",FS+": save_lp_vec, save_lp_vec_with_tuple_as_key")],None,["create_liquidity_pool","query_pools","query_for_pool_by_token_pair"])
p("C25","Factory settings and whitelist change only as the admin asks",
  "Only the stored factory admin can change the whitelist or the stored contract code hashes; after a whitelist update an account is whitelisted exactly if it was added in this call or already listed, and not removed in it, and after a hash update each given hash is stored and each omitted one unchanged. Initialisation refuses an empty whitelist.",
  ["inputs","histories"],"every whitelist and update lists, of any length",
  "Tests update single accounts.",
  [FA,FS],[("whitelist",FA+": update_whitelisted_accounts"),("hashes",FA+": update_wasm_hashes")],None,["update_whitelisted_accounts","update_wasm_hashes","get_config"])
p("C26","Multi-hop swaps chain exactly, on the trader's authority and terms",
  "A multi-hop swap succeeds only for a non-empty chain in which each hop sells the asset the previous hop bought, with the recipient's authorisation; each hop is executed on the pool registered for its pair, for the recipient, selling exactly what the previous hop returned (the first: the offered amount), with the hop's minimum and the caller's spread, deadline and fee limits passed on unchanged. The multi-hop contract itself keeps and moves no funds.",
  ["inputs","histories"],"every list of hops, of any length, and any amounts returned by the pools",
  "Tests run one to four hops on one direction with identical parameters.",
  [MH,MHU],[("chaining",MH+": swap; "+MHU+": verify_swap")],None,["swap"])
p("C27","Multi-hop quotes follow the same chain as execution",
  "A multi-hop quote asks the pool registered for each hop for a quote of exactly the amount quoted by the previous hop, in order (for reverse quotes, in the given reversed order), sums up or lists the commissions hop by hop, and returns the last hop's amount. An empty or broken chain is refused and no state changes.",
  ["inputs","histories"],"every list of hops of any length, both pool types, and any quotes returned by the pools",
  "Tests quote short chains of constant-product pools only.",
  [MH,MHU],[("quotes",MH+": simulate_swap, simulate_reverse_swap; "+MHU+": verify_reverse_swap")],None,["simulate_swap","simulate_reverse_swap"])
p("C28","The trader contract moves its funds only for its admin and within the pair",
  "Trading or transferring the trader contract's tokens succeeds only with the authorisation of its stored admin; a trade sells only one of the two tokens of the configured pair, exactly the amount asked for (the admin's own balance when none is given), through the given pool with the given limits, and a transfer sends exactly the given amount of the given token (the configured output token when none is given) to the given recipient. No other operation moves its tokens.",
  ["inputs","histories"],"every call, caller, amount and pair",
  "Its test module does not even compile; any path is untested.",
  [TR,TRS],[("admin gates",TR+": trade_token, transfer"),("pair check",TR+": trade_token")],None,["trade_token","transfer"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
