#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (run by hand after editing it)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "programs/hmmcl-sandbox/src/"
DEC, POOL, MATH, COMP = S+"decimal.rs", S+"cl_pool/mod.rs", S+"cl_pool/cl_math.rs", S+"cl_pool/cl_components.rs"
FLO, FMATH, FCOMP = S+"cl_pool_float/mod.rs", S+"cl_pool_float/cl_math.rs", S+"cl_pool_float/cl_components.rs"
HIST = "every history of deposits, withdrawals and swaps in both directions, over every set of overlapping, nested, adjacent or disjoint ranges, fee rate, tick spacing, HMM setting and oracle price"
OP = "all operand values, signs and scales, including the extremes of the 128-bit range"
T_NUM = "runtime monitor: exact 512-bit oracle over recorded operations of the real decimal type, hostile operands"
T_HIST = "runtime monitor: online checker with a shadow model over long hostile pool histories run on the real pool"
N_NUM = "Held on the operands generated (edge values, powers of ten, random bit lengths, every sign and scale); judged against independent exact integer arithmetic in the harness."
N_HIST = "Held on the histories generated; the reference for prices and amounts is an independent double-precision model with tolerances derived from the pool's 1e-12 fixed point, so deviations below that rounding are out of reach."
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state, observe=observe))

prop("C01", "Decimal arithmetic is exactly rounded or refused",
 "Adding, subtracting, multiplying and dividing decimal numbers gives exactly the mathematically correct result rounded in the documented direction (towards zero, or away from zero for the rounding-up variants), with the right sign and scale. When a result or a step towards it does not fit, or scales that must agree differ, or the divisor is zero, the operation fails loudly; it never returns a wrong number.",
 ["inputs"], OP, "The tests use a handful of literals and a few small property-test ranges; neither the rounding of every digit pattern nor the 128-bit boundary is sampled.",
 [DEC], [("add and subtract with sign handling", DEC), ("multiply/divide, truncating and rounding up", DEC)], T_NUM, N_NUM)
prop("C02", "Rescaling and conversions keep the value",
 "Changing the scale of a decimal, or converting it to or from integers, token amounts and floating point, keeps its value exactly where representable and otherwise rounds in the stated direction, keeping the sign (conversions to unsigned types and to floating point give the magnitude). A value that does not fit the target is refused instead of being truncated.",
 ["inputs"], OP, "Tests convert a few hand-picked values; signs, large values and rounding of every remainder are not covered.",
 [DEC], [("rescaling", DEC), ("integer and amount conversions", DEC)], T_NUM, N_NUM)
prop("C03", "Decimal comparisons are the numeric order",
 "Equality, ordering, minimum, maximum, negation and the sign predicates of decimals of equal scale agree with the numbers they stand for, whatever their sign and including every representation of zero. Comparing decimals of different scales is reported as an error and never answered wrongly.",
 ["inputs"], OP, "Tests compare a few positive literals.", [DEC], [("comparison trait", DEC), ("min/max and sign predicates", DEC)], T_NUM, N_NUM)
prop("C04", "Decimal square roots are accurate",
 "The square root of a non-negative decimal is within one unit of its last digit of the true root and keeps the scale, and the roots of zero and one are exact. The square root of a negative decimal is an error.",
 ["inputs"], "all values and scales for which the scaled radicand fits 128 bits", "Tests take roots of a few literals; convergence of the iteration for every magnitude is not sampled.",
 [DEC], [("square root iteration and its initial guess", DEC)], T_NUM, N_NUM)
prop("C05", "Decimal natural logarithms are accurate",
 "The natural logarithm of a positive decimal is within 2e-10 (plus the resolution of the scale used) of the true value for values on either side of one, and never decreases by more than that when the value grows. Logarithms of zero and of negative numbers are refused.",
 ["inputs"], "all positive values from the smallest representable to about 1e13 at every scale up to 12", "Tests check a handful of logarithms.",
 [DEC], [("binary logarithm bit lookup", DEC), ("natural logarithm", DEC)], T_NUM, N_NUM)
prop("C06", "Decimal powers are accurate or refused",
 "Raising a decimal to a whole power, or to one of the supported fractional and negative powers, gives the true power up to the rounding of its multiplications with the correct sign. Unsupported exponents and results that do not fit are refused rather than approximated by another power.",
 ["inputs"], "all bases, whole exponents up to the largest tick, every supported fractional exponent and unsupported ones", "Tests try a few bases and exponents.",
 [DEC], [("power by squaring", DEC), ("decimal exponents", DEC)], T_NUM, N_NUM)
prop("C07", "Decimal text round-trips and bad text is an error",
 "Formatting a decimal gives its exact decimal notation, and parsing that text gives the same decimal back; parsing any well-formed literal, with or without sign, fraction or exponent, keeps its exact value. Malformed or unrepresentable text is an error: never a panic and never a different number.",
 ["inputs"], "all values at all scales, all literals with exponents, arbitrary text", "Tests parse a few literals.",
 [DEC], [("parser", DEC), ("formatter", DEC)], T_NUM, N_NUM)
prop("C08", "Ticks and prices are one consistent scale",
 "Every tick maps to the root price 1.0001^(tick/2) up to the resolution of the number type, strictly increasing with the tick, and mapping that price back gives the same tick. Any price maps to the tick whose interval contains it, higher prices never to lower ticks, and rounding to the tick spacing picks the nearest enclosing usable tick in the stated direction.",
 ["inputs"], "every tick from 0 to 90000 and every price between, both pool implementations, every tick spacing and both directions", "Tests convert a few dozen ticks.",
 [MATH, FMATH, POOL], [("tick to root price and back (decimal)", MATH), ("tick to root price and back (float)", FMATH)], "runtime monitor: independent high-precision oracle for both tick scales, all ticks enumerated, prices around every tick edge", N_NUM)
prop("C09", "Liquidity formulas invert each other",
 "The liquidity that amounts of X and Y are worth in a range, the amounts that a liquidity is worth, and the price change an amount causes agree with the concentrated-liquidity formulas for every price below, inside and above the range. Turning amounts into liquidity and back never yields more than was put in, beyond rounding.",
 ["inputs"], "all liquidities, amounts, prices and ranges for which the formula's intermediate results fit the number type, both pool implementations", "Tests compare a few hand-computed liquidities.",
 [MATH, FMATH], [("liquidity and amounts (decimal)", MATH), ("liquidity and amounts (float)", FMATH)], "runtime monitor: independent formula oracle with derived rounding bounds over hostile operands", N_NUM)
prop("C10", "Active liquidity and ticks are the sum of the positions",
 "After every operation the active liquidity equals the total liquidity of the positions whose range contains the current tick, and the active ticks are exactly the bounds of the positions holding liquidity, each with the net and gross liquidity those positions add up to. An operation changes no position but the one it names.",
 ["histories", "inputs"], HIST, "Tests follow a few fixed scripts with one to three ranges; combinations of shared bounds, crossings and removals are not reached.",
 [POOL, COMP], [("tick updates on deposit and withdrawal", POOL), ("crossing a tick", POOL)], T_HIST, N_HIST,
 state=[("positions", "liquidity per owner and range"), ("ticks", "net and gross liquidity per range bound"), ("global liquidity", "liquidity in range at the current tick")])
prop("C11", "The current tick and price agree and move the right way",
 "The current price always lies in the interval of the current tick, with no active tick between the two. A swap paying in X never raises the price and a swap paying in Y never lowers it; deposits and withdrawals leave price and tick unchanged.",
 ["histories", "inputs"], HIST, "Tests check end prices of a few swaps; prices ending on or next to a tick after arbitrary histories are not reached.",
 [POOL, MATH], [("swap within a tick range", POOL), ("crossing gaps and ticks", POOL), ("root price to tick", MATH)], T_HIST, N_HIST)
prop("C12", "Reserves cover all positions and everyone can leave",
 "The reserves of each token are what all positions are worth at the current price: never short beyond rounding dust, and never negative. In every state all owners can withdraw their whole positions, in any order.",
 ["histories", "inputs"], HIST + "; every order of exits", "Tests withdraw after one or two swaps at most.",
 [POOL, MATH], [("amounts owed on withdrawal", POOL), ("reserve update of a swap", POOL)], T_HIST, N_HIST + " Refusals of an exit that the reserves miss by rounding dust are reported as a known finding.")
prop("C13", "Fees reach exactly the positions that earned them",
 "Every position is paid exactly its pro-rata share of the swap fees and HMM adjustments charged while the price was inside its range, once; a position created later is paid nothing earned before. The fee and adjustment pots always cover what is still owed and never go negative.",
 ["histories", "inputs"], HIST, "Tests check fee growth in a few fixed scripts; ticks created on either side, recrossed and re-created are not reached.",
 [POOL, COMP], [("fee growth outside and inside ticks", POOL), ("settling a position's fees", POOL)], T_HIST, N_HIST)
prop("C14", "Swaps conserve tokens, charge the fee rate, fill the order",
 "In every swap the input goes wholly to reserves and fee pot, the output comes wholly from reserves, the fee is the configured rate of the input, and no more is taken than was offered. The order is filled completely unless liquidity runs out, and the reported average and end prices are those of the trade.",
 ["histories", "inputs"], HIST, "Tests check amounts of a few swaps.",
 [POOL, COMP], [("swap loop", POOL), ("swap result", COMP)], T_HIST, N_HIST)
prop("C15", "Swaps follow the constant-product curve",
 "The output of every swap (before HMM adjustment) and the price it ends at are those of the concentrated-liquidity curve through all ranges it traverses, up to rounding. The trader's execution price lies between the start and end price.",
 ["histories", "inputs"], HIST, "Tests compare a few swaps with expected numbers.",
 [POOL, MATH], [("price change for an amount", MATH), ("amounts for a price change", MATH), ("swap within a tick range", POOL)], T_HIST, N_HIST)
prop("C16", "HMM adjustment is exact and only splits the output",
 "A swap moving the price towards the oracle withholds exactly the difference between the constant-product output and the HMM formula's output up to the oracle price; any other swap withholds nothing. The adjustment changes neither the input taken, the fee, the end price nor the gross output.",
 ["histories", "inputs"], HIST, "Tests compute adjustments for a few values of the HMM parameter within one range.",
 [POOL, MATH], [("HMM amounts", MATH), ("adjustment within a swap step", POOL)], T_HIST, N_HIST)
prop("C17", "Splitting a swap neither gains nor loses",
 "Executing an order in any number of consecutive parts gives the same total output and the same final price as executing it at once, up to rounding.",
 ["histories", "inputs"], HIST + "; every split", "No test splits an order.",
 [POOL, MATH], [("swap loop", POOL)], T_HIST, N_HIST)
prop("C18", "Swapping there and back never profits",
 "A trader who swaps and immediately swaps the proceeds back never ends with more than they started with, and with a fee ends with less by at least that fee, whatever the oracle prices used.",
 ["histories", "inputs"], HIST, "Tests never check a round trip of arbitrary amounts.",
 [POOL, MATH], [("swap within a tick range, both directions", POOL)], T_HIST, N_HIST)
prop("C19", "Deposits and withdrawals exchange fair value",
 "A deposit takes at most what was offered, takes exactly what the liquidity it credits is worth at the current price, and credits the most that the offer allows. A withdrawal pays exactly what the liquidity it burns is worth; depositing and withdrawing at once never profits, loses only rounding and restores the pool.",
 ["histories", "inputs"], HIST, "Tests deposit a few amounts.",
 [POOL, MATH], [("liquidity for amounts", MATH), ("deposit", POOL), ("withdraw", POOL)], T_HIST, N_HIST)
prop("C20", "Liquidity operations do not affect other positions",
 "A deposit or withdrawal by one owner changes neither what any other position could withdraw nor the fees it could claim, nor whether it can.",
 ["histories", "inputs"], HIST, "No test checks an uninvolved position.",
 [POOL], [("tick creation and fee growth snapshots", POOL), ("position update", POOL)], T_HIST, N_HIST)
prop("C21", "Invalid operations are rejected",
 "Withdrawing more than a position holds, another owner's position or a negative amount, depositing negative amounts or into an empty or inverted range, and swapping nothing or a negative amount are all refused in every state.",
 ["histories", "inputs"], HIST + "; every invalid operation in every state reached", "Tests try invalid operations, if at all, on a fresh pool.",
 [POOL], [("argument checks of deposit, withdraw and swap", POOL)], T_HIST, N_HIST)
prop("C22", "The float pool keeps every guarantee of the decimal pool",
 "The floating point pool, for every history of deposits, withdrawals and swaps, keeps ticks and active liquidity equal to its positions, price and tick in agreement, reserves covering all positions, fees paid exactly to those who earned them, swaps on the constant-product curve, fair deposits and withdrawals and rejection of invalid operations.",
 ["histories", "inputs"], HIST, "The tests of the float pool replay fixed scripts of a few operations.",
 [FLO, FMATH, FCOMP], [("swap, deposit and withdraw of the float pool", FLO), ("formulas", FMATH)], "runtime monitor: all history monitors (shadow positions, reference swap, fee attribution, solvency) over the float pool", "Held on the histories generated, up to double-precision rounding tolerances.")
IN = S+"instructions/"
T_SIM = "runtime monitor: the program's real entry point in an in-process runtime with the real token processor; online checkers over all accounts before and after every instruction, honest and hostile"
N_SIM = "Held on the instruction histories generated (two pools, three users, up to 35 instructions each); the runtime's account, signature and cross-program rules are re-created by the harness."
SIMQ = "every history of pool, tick, bitmap and position creations, deposits and withdrawals by several users in several pools, every amount"
prop("C23", "The tick bitmap is exactly the set of active ticks",
 "After any sequence of activations and deactivations the bitmap reports a tick active exactly when it was last activated, and the next active tick to the left or right of any tick is the nearest one strictly on that side, or none. Changing one tick changes no other, and ticks outside the map are refused.",
 ["histories", "inputs"], "every sequence of activations and deactivations of ticks 0 to 79999, every query", "The test activates three ticks and queries two.",
 [S+"state/tick_bitmap.rs"], [("activation", S+"state/tick_bitmap.rs"), ("search within a byte and over bytes", S+"state/tick_bitmap.rs")], "runtime monitor: ordered-set model beside the real bitmap under random and edge-seeking operations", "Held on the operation sequences generated; every answer compared with an ordered set.")
prop("C24", "The program moves exactly the tokens it owes and reports",
 "A deposit instruction takes at most the amounts offered, takes what the credited liquidity is worth rounded up to whole tokens, credits the most the offer allows and mints its whole units as LP tokens. A withdrawal burns the LP tokens asked for and pays their worth rounded down. Users, vaults and events agree on the amounts, and tokens are conserved.",
 ["histories", "inputs"], SIMQ, "No test runs the program's instructions.",
 [IN+"deposit.rs", IN+"withdraw.rs"], [("deposit", IN+"deposit.rs"), ("withdrawal", IN+"withdraw.rs")], T_SIM, N_SIM)
prop("C25", "The program only acts for its signers on its own accounts",
 "An instruction naming a wrong account (another pool's, position's, tick's, mint's, vault's or user's, or a forged one), arguments or a current tick that do not match, or lacking a signature is refused. Tokens leave an account only with its owner's signature, and nobody withdraws more than their own position and LP tokens.",
 ["histories", "inputs"], SIMQ + "; every substitution of accounts, arguments and signatures", "No test runs the program's instructions.",
 [IN+"deposit.rs", IN+"withdraw.rs", IN+"manage_position.rs"], [("account constraints of deposit", IN+"deposit.rs"), ("account constraints of withdraw", IN+"withdraw.rs")], T_SIM, N_SIM)
prop("C26", "On-chain liquidity records add up",
 "After every instruction each pool's active liquidity is that of its positions whose range contains the current tick, and each tick's net and gross liquidity are those of the positions it bounds. A deposit or withdrawal changes only its own position by exactly the liquidity moved, and a refused instruction changes nothing.",
 ["histories", "inputs"], SIMQ, "No test runs the program's instructions.",
 [IN+"deposit.rs", IN+"withdraw.rs", IN+"manage_position.rs", IN+"manage_tick.rs"], [("position update", IN+"manage_position.rs"), ("tick update", IN+"manage_tick.rs"), ("active liquidity", IN+"deposit.rs")], T_SIM, N_SIM,
 state=[("PositionState.liquidity", "liquidity of one owner in one range"), ("TickState", "net and gross liquidity"), ("PoolState.pool_global_state.liquidity", "active liquidity")])
prop("C27", "Vaults cover all positions and everyone can leave",
 "After every instruction a pool's token vaults hold at least what all its positions are worth, and LP tokens never exceed the liquidity they stand for. From every state all owners can withdraw everything their positions and LP tokens cover, in any order.",
 ["histories", "inputs"], SIMQ + "; every order of exits", "No test runs the program's instructions.",
 [IN+"deposit.rs", IN+"withdraw.rs"], [("amounts debited", IN+"deposit.rs"), ("amounts credited", IN+"withdraw.rs")], T_SIM, N_SIM)
prop("C28", "Program records are created once, empty and where they belong",
 "A pool, bitmap, tick or position record can be created exactly once, only at its own derived address, with the signatures and mint authority it needs, and starts empty with the right mints, vaults, price, range and bump. Those identifying fields never change afterwards, and creating one record changes no other.",
 ["histories", "inputs"], SIMQ + "; every wrong address, argument or signature", "No test runs the program's instructions.",
 [IN+"initialize_pool.rs", IN+"manage_bitmap.rs", IN+"manage_tick.rs", IN+"manage_position.rs"], [("pool creation", IN+"initialize_pool.rs"), ("tick creation", IN+"manage_tick.rs"), ("position creation", IN+"manage_position.rs"), ("bitmap creation", IN+"manage_bitmap.rs")], T_SIM, N_SIM)
prop("C29", "Integer arithmetic never wraps silently",
 "In no operation of the numbers, pools, bitmap or program, whatever its operands, does an integer addition, subtraction, multiplication, negation or shift overflow its type and continue with a wrapped value: what does not fit is checked and refused.",
 ["inputs", "histories"], "the operands and histories of all other properties, including the extremes of the 128-bit range", "Tests run small values, and the shipped release build does not trap overflow.",
 [DEC, MATH, POOL], [("checked arithmetic of the decimal type", DEC), ("tick and price arithmetic", MATH)], "sanitizer: the workloads of all other properties in a build with integer overflow trapping", "Held on the operands and histories generated; only arithmetic the workloads execute is observed, and narrowing casts are judged by the other properties.")
prop("C30", "Valid operations are accepted",
 "Deposits of any amounts into any valid range and swaps of any size in either direction succeed in every reachable state: rounding in fee growth, price bounds or adjustments never makes the pool refuse service. Only orders so small that rounding decides their price, or ones draining reserves to the last rounding unit, may be refused.",
 ["histories", "inputs"], HIST, "Tests only run operations known to succeed.",
 [POOL, MATH], [("sanity checks inside deposit and swap", POOL)], T_HIST, N_HIST)

PY = S+"cl_python/v3_pool.py"
prop("C31", "The Python reference pool keeps the guarantees of the pool",
 "The Python reference pool, for every history of deposits, withdrawals and swaps, keeps ticks and active liquidity equal to its positions, price and tick in agreement, reserves equal to what all positions are worth, fees and adjustments paid exactly to the positions that earned them, swaps on the constant-product curve with the fee rate and adjustment of the formulas, deposits and withdrawals at the current price. Everyone can leave, and operations with negative amounts, empty or inverted ranges or more than the position holds are refused and change nothing.",
 ['histories', 'inputs'], "every history of deposits, withdrawals and swaps in both directions, over every set of overlapping, nested, adjacent or disjoint ranges, fee rate, tick spacing, HMM setting and oracle price (or none), at prices on both sides of tick 0", "No test runs the Python pool; its notebooks replay a few operations without checking them.",
 [PY], [('swaps', PY), ('deposit, withdraw and fee settlement', PY), ('ticks and crossings', PY)], "runtime monitor: online checker with a shadow model over long hostile histories run on the real Python pool",
 "Held on the histories generated; the reference is an independent 40-digit model fed with the pool's own tick prices, tolerances are those of double precision.")
prop("C32", "Python reference formulas and ticks are consistent",
 "In the Python reference pool, ticks map to 1.0001^(tick/2) and a root price maps back to the tick that brackets it, in both rounding directions, for positive and negative ticks and every spacing. Liquidity formulas invert each other, range bounds are recovered from amounts, price moves and their token amounts invert each other, and the HMM amounts are the exact integrals, for every coefficient including 1.",
 ['inputs'], "every tick, root price, spacing, range, liquidity, amount, oracle price and HMM coefficient within double precision", "No test evaluates the Python formulas.",
 [PY], [('tick and price conversion', PY), ('liquidity, amount and HMM formulas', PY)], "runtime monitor: results of the real Python formulas checked against 40-digit closed forms on generated operands",
 "Held on the operands generated, to within the rounding of doubles.")

prop("C33", "Pools report exactly the amounts they moved",
 "What the decimal and floating-point pools report of an operation is what it did to the pool: the amounts a deposit says were debited and returned, the amounts a withdrawal says were sent, the fees and adjustments said to be included, and the amounts, fee, adjustment, reserves, pots, average and end price a swap reports are the changes of the reserves and pots and the price after it. A deposit's debit and refund add up to the offer.",
 ["histories", "inputs"], HIST, "No test looks at what deposits and withdrawals report; tests compare the results of a few swaps.",
 [POOL, FLO], [("reports of deposit, withdraw and swap (decimal)", POOL), ("reports of deposit, withdraw and swap (float)", FLO)], "runtime monitor: the output of the real pools captured operation by operation and checked against their state before and after",
 "Held on the histories generated; amounts are compared exactly in the decimal pool and to double precision in the floating-point pool. Amounts announced in a form the monitor cannot read are not judged.")

prop("C34", "On-chain fee records follow the growth in the range",
 "A deposit or withdrawal leaves in its position's fee record, for each token and for fees and adjustments apart, the growth per unit of liquidity that took place inside the position's range, as the pool's record and those of its two ticks give it for the current tick on any side of the range; while no fees were ever collected all fee records stay zero. Deposits and withdrawals change no fee record but that of their own position.",
 ["histories", "inputs"], SIMQ + "; every distribution of fee growth over ticks below, inside and above the ranges", "No test runs the program's instructions.",
 [IN+"manage_fee.rs", IN+"deposit.rs", IN+"withdraw.rs"], [("growth inside a range", IN+"manage_fee.rs"), ("record kept in the position", IN+"manage_position.rs")], T_SIM,
 N_SIM + " The program has no swap instruction, so fee growth is written into the accounts by the harness as swaps would leave it; amounts paid while there are fees are not judged.",
 state=[("PositionState.last_collected_fee", "growth inside the range when last touched"), ("TickState.tick_fee", "growth on the far side of the tick"), ("GlobalState.global_fee", "growth of the pool")])

prop("C35", "New pools start empty at the usable price asked for",
 "A new decimal or floating-point pool starts at the usable tick at or below the price it is asked for, for every price and tick spacing, at exactly that tick's price, with no reserves, fees, positions, ticks or liquidity. Nothing can be swapped or withdrawn from it and trying leaves it unchanged; its first deposit alone decides what it holds. The decimal pool refuses a negative price or fee and an HMM strength below 0 or above 2.",
 ["inputs"], "every starting price, tick spacing, fee rate and HMM strength; every first operation", "Tests create pools at a few prices, all with the same spacing.",
 [POOL, FLO], [("creation of the decimal pool", POOL), ("creation of the float pool", FLO)], "runtime monitor: full state of pools just created and after their first operations, checked against the price scale",
 "Held on the parameters and first operations generated (root prices from 1 to that of tick 60,000).",
 state=[("Pool.glbl_tick, Pool.glbl_rp", "usable tick and price the pool starts at")])

prop("C36", "Swaps depend only on price and positions",
 "What a swap does - amounts, fee, adjustment, prices, the tick and liquidity after it - depends only on the pool's price, tick and positions: a decimal or floating-point pool that reached them through any history of deposits, withdrawals and swaps trades exactly like a new pool given the same price and positions. Who owns the positions, the order they were made in and the names and decimals of the tokens have no influence on any result, and repeating a history repeats its states.",
 ["histories"], HIST + "; every naming of owners and tokens, every order of the deposits", "Tests replay a few fixed histories and never compare two ways to the same state.",
 [POOL, FLO], [("swaps and tick crossings (decimal)", POOL), ("positions and ticks", POOL), ("the floating-point pool", FLO)], "runtime monitor: metamorphic comparison of the real pool with twins run alongside it and with pools rebuilt from its state",
 "Held on the histories generated; compared exactly, but for reserves of the floating-point pool (relative 1e-12). A swap that only one of two pools refuses, for lack of the last units of a reserve, is not judged.",
 state=[("Pool.active_ticks, Pool.positions", "what remains of the history")])

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

have = subprocess.check_output([HERE+"/.build/release/verif-harness", "list"], text=True).split() + ["C31", "C32"]
P = [p for p in P if p["id"] in have]
P.sort(key=lambda p: p["id"])
with open(HERE+"/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash check.sh --build",
 "hooks": {"guard": "cfg(hmmcl_verif)", "enable": "RUSTFLAGS='--cfg hmmcl_verif' cargo build (done by check.sh in /verif/harness)",
           "source_commits": [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines() if " verif hook" in l]},
 "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in P],
 "not_applicable": NOT if "NOT" in globals() else [],
 "notes": "Every check rebuilds the harness against /repo's working tree (about 30 s from cold). KNOWN_FINDINGS.txt lists findings and repairs; a violation's replay file is replayed with .build/release/verif-harness replay FILE (C31, C32: python3 -B pypool/pymon.py replay FILE)."}
json.dump(m, open(HERE+"/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
