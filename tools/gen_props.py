#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":mech}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H=["histories","inputs"]
p("C01","DEX swaps never shrink the pool invariant",
 "Whatever the path, amounts and direction, a successful swap never decreases the product of a pool's two reserves, charges at least the 0.3% fee, moves exactly the amounts it reports, and every hop of a multi-hop path hands its whole output to the next hop. No swap can drain a reserve to zero.",
 H,"every sequence of pool states and every swap (exact-in, exact-out, multi-hop, overlapping or adversarial amounts)",
 "The tests check a handful of fixed pool sizes; rounding direction and overflow depend on the particular amounts.",
 ["pallet/dex/src/lib.rs"],"get_amount_out/get_amount_in and _swap")
p("C02","DEX reserves are backed and LP shares cannot be diluted",
 "The reserves the DEX reports for a pair always equal what the pool's account really holds of the two assets through DEX operations, the LP token supply is exactly what add/remove minted and burned, and a liquidity provider's share value never falls because somebody else adds, removes or swaps; while a fee receiver is set, it is minted at most a sixth of the growth of the pool since fees were last settled, otherwise nothing. Adding and immediately removing liquidity never yields more than was put in.",
 H,"every interleaving of add_liquidity, remove_liquidity and swaps by several accounts on several pairs",
 "Tests exercise one or two providers with round numbers; dilution comes from rounding over long histories.",
 ["pallet/dex/src/lib.rs","pallet/dex/src/types.rs"],"LiquidityPool, mint/burn of LP tokens, fee-to minting")
p("C03","DEX calls honour the caller's limits, deadline and pair status",
 "A successful DEX call never pays out less than the caller's stated minimum, never takes more than the stated maximum, never runs after its deadline, and never trades on or adds to a disabled pair; a rejected call changes no balance, reserve or LP supply.",
 H,"all limits, deadlines, statuses and recipients for all reachable pool states",
 "Tests pick one failing and one passing value per limit.",
 ["pallet/dex/src/lib.rs"],"ensure! gates around swap/add/remove")
p("C04","Fungible balances always sum to total issuance",
 "For every fungible asset (ROOT, XRP and created assets) the balances of all accounts always sum to the total issuance, transfers conserve the sum and move exactly the amount asked, and issuance changes only by exactly the amount minted, burned or carried by a dropped imbalance.",
 H,"every sequence of create, mint, burn, transfer, hold, release, imbalance and minted/burned amount, across all asset kinds",
 "Conservation is a global sum over all accounts after every operation; tests check single accounts after short scripts.",
 ["pallet/assets-ext/src/lib.rs","pallet/assets-ext/src/impls.rs","pallet/assets-ext/src/imbalances.rs"],"routing of fungibles calls to balances/assets pallets, imbalances")
p("C05","Held funds are exactly accounted and only move by their holder",
 "The amount held for an account under each pallet and asset equals placed minus released minus spent, the holding account always owns at least the sum of all holds, no hold can be released or spent beyond what was placed, and a failed or partial spend leaves every hold and balance as it was.",
 H,"every sequence of place, release, spend (to several payees) and plain transfers by several pallets and accounts",
 "Tests place and release one hold; over-release and double-spend need long mixed histories.",
 ["pallet/assets-ext/src/lib.rs","pallet/assets-ext/src/impls.rs"],"Hold trait, Holds map and the pallet's holding account")
p("C06","New asset and collection ids are unique and encode chain and counter",
 "Every asset and collection created gets an id never used before, decodable to its counter and parachain id, mapped to a distinct EVM address and back without loss, and creation fails rather than wrapping when ids run out.",
 H,"all counters and parachain ids including the ends of their ranges",
 "Tests try a few counters.",
 ["pallet/common/src/utils.rs","pallet/assets-ext/src/lib.rs","pallet/nft/src/impls.rs","pallet/sft/src/impls.rs","runtime/src/impls.rs"],"next_asset_uuid bit packing, precompile address mapping")
p("C07","Every NFT has exactly one owner and supply is exact",
 "In each collection every existing serial number belongs to exactly one account, per-account balances sum to the collection's issuance, no serial number minted on this chain is ever issued twice, and minting on this chain never takes the issuance above the collection's maximum (tokens that arrive over a bridge keep their serial number and are not limited by it). Only minting, bridging and burning change the supply, each by exactly the tokens named.",
 H,"every history of create, mint, bridged mint, transfer (including repeated serials), burn and owner change",
 "Tests follow one or two tokens through a fixed script; uniqueness is a whole-collection invariant over histories.",
 ["pallet/nft/src/lib.rs","pallet/nft/src/impls.rs","pallet/nft/src/types.rs"],"CollectionInformation.owned_tokens, do_mint, do_transfer, do_burn")
p("C08","Only entitled accounts move, burn or administer NFTs",
 "A token moves or burns only at its current owner's order (or an approved spender through the token precompile), never while locked or while the collection forbids it, and only the collection owner changes collection settings; a one-way setting (maximum issuance) is never changed again.",
 H,"every caller, token state, lock, utility flag and call order",
 "Tests check each refusal once from one state.",
 ["pallet/nft/src/lib.rs","pallet/nft/src/impls.rs"],"ownership and lock checks in do_transfer/do_burn and the setters")
p("C09","NFT and SFT minting obeys limits and charges the exact fee",
 "A mint by anyone but the collection owner succeeds only while public mint is on, charges exactly price times quantity to the minter in favour of the collection owner, and never pushes supply past a limit; a refused mint charges nothing.",
 H,"all mint sizes, prices, limits, flags and callers",
 "Price times quantity and limit boundaries are input-quantified.",
 ["pallet/nft/src/lib.rs","pallet/nft/src/impls.rs","pallet/sft/src/lib.rs","pallet/sft/src/impls.rs"],"pre_mint, charge_mint_fee")
p("C10","Semi-fungible balances sum to supply and never overspend",
 "For every semi-fungible token the free plus reserved balances of all owners sum to its issuance, issuance never exceeds its maximum, transfers and burns move exactly the listed amounts of each listed token, and nobody spends tokens they do not own free.",
 H,"every history of create, mint, transfer, burn and reserve with duplicated ids and extreme amounts",
 "Whole-supply sums over histories with repeated serial ids are never sampled.",
 ["pallet/sft/src/lib.rs","pallet/sft/src/impls.rs","pallet/sft/src/types.rs"],"SftTokenInformation balances")
p("C11","Token approvals authorise exactly what was granted",
 "Only a token's owner or operator can grant approval, an approval ends when the token moves or burns, a fungible allowance is reduced by exactly what was spent and never below zero, and an account is authorised exactly when it is owner, approved or operator.",
 H,"every history of approve, approve-for-all, transfer, allowance update and query",
 "Stale-approval bugs need transfer/approve interleavings beyond the tests' two-step scripts.",
 ["pallet/token-approvals/src/lib.rs"],"ERC20/721/1155 approval maps, OnTransferSubscriber")
p("C12","A marketplace sale settles exactly once and conserves funds",
 "When a fixed-price sale, auction or offer settles, the buyer pays exactly the agreed price once, the seller, royalty holders, marketplace and network together receive exactly that price (each royalty its configured share), and every listed token goes to the buyer; a failed settlement changes nothing.",
 H,"all prices, royalty schedules, token lists, payment assets and settlement orders",
 "Tests use round prices and one or two royalties; rounding and failure paths are input-quantified.",
 ["pallet/marketplace/src/impls.rs","pallet/marketplace/src/lib.rs","pallet/marketplace/src/types.rs"],"do_buy, process_auction_closure, do_accept_offer, calculate_royalty_payouts")
p("C13","Marketplace escrow matches open bids, offers and listings",
 "At all times the funds held by the marketplace equal the sum of open highest bids and open offers, outbid or cancelled parties get their full amount back, tokens are locked exactly while listed, and no listing stays open after its closing block.",
 H,"every interleaving of sell, auction, bid, buy, cancel, offer, accept and block progress",
 "Escrow equality is a global sum over histories.",
 ["pallet/marketplace/src/impls.rs","pallet/marketplace/src/lib.rs"],"holds placed on bid/offer, token locks, ListingEndSchedule")
p("C14","Crowdsale funds and vouchers are conserved",
 "A sale's vault always holds exactly what participants contributed until settlement, each participant gets vouchers proportional to contribution and never more than the cap in total, each voucher redeems for exactly one token, and no participant is paid twice or skipped. Acting for the vault, the admin alone can change the name, metadata and royalties of the vault's collection, and nothing else.",
 H,"all contribution patterns, caps, prices and distribution interleavings",
 "Proportional rounding across many participants is not sampled.",
 ["pallet/crowdsale/src/lib.rs","pallet/crowdsale/src/impls.rs","pallet/crowdsale/src/types.rs","runtime/src/impls.rs"],"participate, distribution, claim/redeem vouchers")
p("C15","XRPL deposits are credited exactly once, after the challenge window",
 "A relayed XRPL transaction is credited at most once, never before its challenge period ended, never if challenged in time, only if submitted by an authorised relayer for an open ledger window, and for exactly the amount, asset and beneficiary relayed.",
 H,"every order of submission, re-submission, challenge, pruning and block progress",
 "Replay windows depend on ledger index/pruning histories that tests do not reach.",
 ["pallet/xrpl-bridge/src/lib.rs"],"add_to_relay, process_xrp_tx, SettledXRPTransactionDetails, clear_storages")
p("C16","XRPL withdrawals debit exactly what is sent and use each ticket once",
 "Every withdrawal debits the user exactly the amount encoded in the outgoing XRPL transaction plus the door fee, each outgoing transaction uses a distinct ticket sequence inside the configured ranges, and a delayed withdrawal is sent exactly once and not before its delay elapsed.",
 H,"all amounts, destinations, door fees, ticket ranges and delays",
 "Ticket exhaustion, switch-over and delay queues are history-quantified.",
 ["pallet/xrpl-bridge/src/lib.rs","pallet/xrpl-bridge/src/types.rs"],"add_to_withdraw, get_door_ticket_sequence, process_delayed_payments")
p("C17","Bridged Ethereum events are handled at most once and in order",
 "An Ethereum event is accepted only from the relayer and never while an earlier claim of its id is pending or delivered; it is delivered to its destination once, exactly at the end of the challenge period (each open challenge putting it off by one more), never if validators reject it; and ids skipped in the sequence, or rejected, stay claimable until delivered or removed by governance.",
 H,"every order of event ids, challenges, notarisations, re-submissions and blocks",
 "Replay protection is a property of the whole history of ids.",
 ["pallet/ethy/src/lib.rs","pallet/ethy/src/impls.rs","runtime/src/impls.rs"],"ProcessedMessageIds, MissedMessageIds, PendingEventClaims, on_initialize")
p("C18","Challenge outcomes follow the votes and pay the right bond",
 "A challenged claim is decided exactly when its yes or no votes reach the threshold, each validator's vote counts once, the loser's bond goes to the winner exactly once, and bonds held always match open relayer and challenger obligations.",
 H,"all vote sets, orders and validator-set sizes",
 "Thresholds and double votes over validator sets are combinatorial.",
 ["pallet/ethy/src/impls.rs","pallet/ethy/src/lib.rs"],"handle_event_notarization, process_valid/invalid challenge, bonds")
p("C19","Bridge proof requests are numbered uniquely and never lost while paused",
 "Every message to sign gets a strictly increasing, never reused proof id, requests made while the bridge is paused are queued and emitted exactly once after it resumes, and a validator-set change is announced with its own proof before the new set signs.",
 H,"every interleaving of requests, pause/resume and authority changes",
 "Pause/resume orderings are not sampled.",
 ["pallet/ethy/src/impls.rs","pallet/ethy/src/lib.rs","runtime/src/impls.rs"],"NextEventProofId, PendingEventProofs, authority change, StakingSessionTracker")
p("C20","ERC20 peg mints only what was deposited, burns what it withdraws",
 "A deposit credits exactly the deposited amount to the stated beneficiary once, a withdrawal debits exactly what the outgoing message says, delayed payments are executed exactly once and not before their block, and a deposit from the wrong contract or while paused credits nothing.",
 H,"all deposits, withdrawals, delay settings, idle weights and block orders",
 "Delay queues under weight limits are history-quantified.",
 ["pallet/erc20-peg/src/lib.rs","pallet/erc20-peg/src/types.rs"],"do_deposit, do_withdrawal, delayed payments and on_idle")
p("C21","NFT peg conserves bridged tokens",
 "A bridged-in token exists exactly once after its deposit event, a withdrawal burns exactly the tokens its outgoing message names and only the caller's, the two collection mappings stay inverse, and tokens that could not be minted can be reclaimed exactly once and only by their intended owner.",
 H,"all deposit payloads, withdrawals and reclaim orders",
 "Payload shapes and blocked-mint histories are not sampled.",
 ["pallet/nft-peg/src/lib.rs","pallet/nft-peg/src/types.rs"],"do_deposit, do_withdrawal, blocked mints")
p("C22","A futurepass acts only for its owner and registered delegates",
 "A futurepass executes calls only for its owner or a registered delegate within the delegate's permitted call class, each owner has at most one futurepass and each futurepass one owner, a delegate joins only with its own unexpired signature, and ownership transfer removes all other delegates.",
 H,"every history of create, register, unregister, transfer, proxied call by any account",
 "Authority leaks need long register/transfer interleavings.",
 ["pallet/futurepass/src/lib.rs","runtime/src/impls.rs"],"Holders, proxy delegates, signature registration")
p("C23","Paying fees in another asset charges only what the caller agreed to",
 "When a caller pays fees in another asset the inner call runs with the caller's own authority, the exchange never costs more of that asset than the stated maximum (for an EVM transaction: than what buys its maximum fee) or more than the fee needs, and funds the fee in the native fee asset; if the exchange is impossible the call fails without effect.",
 H,"all fee assets, maxima, pool states and nested calls",
 "Fee swaps depend on pool state and nesting depth.",
 ["pallet/fee-proxy/src/lib.rs","pallet/fee-proxy/src/impls.rs","pallet/fee-proxy/src/runner.rs"],"call_with_fee_preferences, withdraw_fee")
p("C24","Reward vortex pays each account its share once and never overdraws",
 "For each reward cycle every account is paid at most once, exactly its registered reward, in a cycle that was started and not disabled, vaults are debited exactly by what was paid or redeemed, and a cycle's status only moves forward.",
 H,"all reward registrations, payout batches, replays and status changes",
 "Batch boundaries and replays are history-quantified.",
 ["pallet/vortex-distribution/src/lib.rs"],"register_rewards, pay_unsigned, redeem")
p("C25","Maintenance mode blocks exactly what it is told to block",
 "While maintenance mode is on only the protected pallets' calls are admitted; a blocked account cannot submit anything else in any transaction format; a blocked call or pallet never executes for a signed account however it is wrapped (batches, proxies, futurepasses, fee preferences, vaults, XRPL and doughnut envelopes); a blocked address cannot be the target of an EVM transaction, with or without fee preferences; everything not blocked keeps working; and the protected pallets (maintenance mode, sudo, timestamp, im-online, eth bridge) can never be blocked.",
 H,"all calls, wrappers, origins and block lists",
 "Wrapped-call bypasses and name handling are input-quantified.",
 ["pallet/maintenance-mode/src/lib.rs","runtime/src/impls.rs"],"call_paused, MaintenanceChecker, blocked maps")
p("C26","Delegated (doughnut) calls stay within the signed grant",
 "A delegated call executes only with an unexpired, unrevoked, correctly signed grant from the issuer to the exact holder and holder signature, only for modules and methods the grant allows, and as the issuer; any tampering, replay or revocation makes it fail.",
 H,"all grants, mutations, revocations and nested calls",
 "Mutated signatures and permission shapes are input-quantified.",
 ["pallet/doughnut/src/lib.rs","pallet/doughnut/src/impls.rs"],"transact validations, self-contained checks")
p("C27","XRPL-wallet calls execute only as signed, once",
 "A call submitted through an XRPL-signed envelope runs only if the signature covers exactly that call, nonce, chain id and deadline and the signer matches, runs as the signer's account, pays its fee, and can never be replayed.",
 H,"all envelopes, mutations, nonces and replays",
 "Memo parsing and mutation cases are input-quantified.",
 ["pallet/xrpl/src/lib.rs","pallet/xrpl/src/types.rs"],"validate_params, self-contained hooks, memo parsing")
p("C28","Storage migrations visit every item once within their limits",
 "A multi-block migration transforms every stored item exactly once whatever the block limits, delays and pauses, never exceeds its per-block budget, resumes where it stopped, and while it runs the affected calls are refused.",
 ["histories","configurations","fault_sequences"],"all block limits, weights, delays, enable/disable points and store sizes",
 "Tests run one store size to completion.",
 ["pallet/migration/src/lib.rs"],"migrate loop, LastKey cursor")
p("C29","NFI requests are paid, authorised and recorded exactly",
 "Requests for extra token data (NFI) are charged exactly the set fee per token to the set recipient, only the owner can request and only the relayer can fulfil them, and the stored data of a token is the data last submitted for it until the token is burned.",
 H,"all fee settings, batches, callers and orders",
 "Batch fee multiplication and duplicates are not sampled.",
 ["pallet/nfi/src/lib.rs"],"pay_mint_fee, manual_data_request, submit_nfi_data")
p("C30","Signatures verify only for their own message and signer",
 "A signature is accepted for an account only if that account's key signed exactly that message in one of the supported schemes; any other message or account, and any altered signature that is not another encoding of the same ECDSA signature, is rejected, and verification never panics on any bytes.",
 ["inputs"],"all keys, messages and mutated signatures",
 "Tests try a few vectors.",
 ["primitives/src/signature.rs"],"EthereumSignature::verify")
p("C31","EVM precompile calldata codec is exact and total",
 "Every value encoded for a precompile call or return decodes to the same value in the standard Solidity layout, truncated, out-of-bounds or out-of-range calldata is rejected with a revert and never a panic or an allocation beyond the size of the input, and generated selectors equal the keccak hash of the signature text.",
 ["inputs"],"all argument tuples and all byte strings",
 "Byte-level hostile inputs are unbounded.",
 ["evm-precompiles/utils/src/data.rs","evm-precompiles/utils/macro/src/lib.rs"],"EvmData read/write, generate_function_selector, keccak256!")
p("C32","Validators witness once and prove only with a threshold",
 "The bridge gadget of an active validator signs every proof request of a finalised block exactly once, with the digest of that request, and sends it to its peers. Every gadget counts each validator's signature at most once per event, ignores invalid, stale, foreign-digest and repeated signatures and those of accounts outside the validator set, and announces and stores a proof exactly once: as soon as the threshold of the set the event was requested from (for XRPL: of its XRPL signers) is reached, in any arrival order and across set changes, with each signature at its validator's index; the RPC returns exactly that proof.",
 ["histories","schedules","inputs"],"all arrival orders, duplicates, set changes and early witnesses",
 "Arrival orders are combinatorial.",
 ["ethy-gadget/src/witness_record.rs","ethy-gadget/src/gossip.rs","ethy-gadget/src/worker.rs","ethy-gadget/rpc/src/lib.rs"],"WitnessRecord::note_event_witness, has_consensus, EthyWorker::handle_finality_notification, try_make_proof, GossipValidator::validate")
p("C33","EVM token precompiles mirror the ledger",
 "Balances, owners, supplies and allowances read through the ERC20, ERC721 and ERC1155 precompiles always equal the ledger, state-changing calls through them have exactly the effect of the equivalent ledger operation on behalf of the EVM caller, and failed calls revert without effect.",
 H,"all call sequences through precompiles and direct extrinsics",
 "Equivalence over histories is not tested here.",
 ["evm-precompiles/erc20/src/lib.rs","evm-precompiles/erc721/src/lib.rs","evm-precompiles/erc1155/src/lib.rs"],"precompile dispatch into pallets")
p("C34","Fee arithmetic is monotone, exact and never favours the payer",
 "Weight-to-fee and length-to-fee grow with their inputs and configured multipliers without overflow, conversion of EVM amounts to the ledger's 6 decimals never under-charges and never loses more than one unit, and the fee pot records exactly the fees it received.",
 H,"all weights, lengths, multipliers and amounts",
 "Boundary values are input-quantified.",
 ["pallet/fee-control/src/lib.rs","pallet/common/src/utils.rs","pallet/tx-fee-pot/src/lib.rs","runtime/src/impls.rs"],"weight_to_fee, scale_wei_to_correct_decimals, accrue")
p("C35","XLS-20 requests are paid, authorised and recorded exactly",
 "A request to mint tokens on XRPL is charged exactly the configured fee per token to the relayer, only the relayer can record an XRPL token id, only for an existing token that has none yet, and collections can enable XLS-20 compatibility only by their owner and while they are empty. A token bridged in from the XRPL is minted once, in the one collection of its issuer and taxon, unless it is burnable on the XRPL; withdrawing a token burns it and offers exactly its XRPL id to the chosen destination.",
 H,"all fee settings, batches, callers and orders",
 "Batch fee multiplication, duplicates and partially fulfilled batches are not sampled.",
 ["pallet/xls20/src/lib.rs"],"enable_xls20_compatibility, do_request_xls20_mint, fulfill_xls20_mint")
p("C36","Ethereum state queries and off-chain votes report only what was agreed or seen",
 "A checked Ethereum call reports back exactly once: with a result if at least the threshold of validators reported that same result, as failed once no result can reach it; and a validator's off-chain worker votes a challenged event valid exactly when its Ethereum node shows the event, emitted by the bridge contract in that successful transaction with the claimed content and enough confirmations.",
 H,"all vote multisets, validator-set sizes and node responses",
 "Agreement under split votes and hostile or failing node responses cannot be sampled by a handful of fixtures.",
 ["pallet/ethy/src/impls.rs","pallet/ethy/src/types.rs"],"handle_call_notarization, offchain_try_notarize_event, offchain_try_eth_call")
p("C37","EVM exchange and marketplace calls mirror the ledger",
 "A call to the DEX or the marketplace precompile has exactly the effect of the equivalent ledger call made by the EVM caller, returns its result and logs it. What the ledger refuses, numbers too large for the ledger's types, writes in a static context and value sent to functions that take none revert without effect. Reads return exactly what the ledger holds or quotes, and the value sent with a payable function is exactly what is spent.",
 H,"all call sequences by accounts and contracts, amounts, paths, deadlines and values",
 "Equivalence over histories, argument widths and call contexts cannot be sampled.",
 ["evm-precompiles/dex/src/lib.rs","evm-precompiles/marketplace/src/lib.rs"],"DexPrecompile::execute, MarketplacePrecompile::execute")
p("C38","EVM collection, bridge and futurepass calls mirror the ledger",
 "A call to the NFT, SFT, peg, futurepass registrar or futurepass precompile has exactly the effect of the equivalent ledger call, made by the EVM caller (a new collection: by the owner named) and, for a futurepass, on the futurepass that was called; it returns its result and logs it. What the ledger refuses, arguments too large for the ledger's types, writes in a static context, delayed withdrawals and value sent to functions that take none revert without effect. Value sent to a futurepass with no data reaches it.",
 H,"all call sequences by accounts and contracts, arguments, addresses and values",
 "Equivalence over histories, argument widths and call contexts cannot be sampled.",
 ["evm-precompiles/nft/src/lib.rs","evm-precompiles/sft/src/lib.rs","evm-precompiles/peg/src/lib.rs","evm-precompiles/futurepass-registrar/src/lib.rs","evm-precompiles/futurepass/src/lib.rs"],"initialize_collection, erc20_withdraw, erc721_withdraw, create_futurepass, transfer_ownership")
p("C39","A runtime upgrade carries stored token data over exactly once",
 "The upgrade of a chain with NFI storage of the old layout puts the data of every token and the switch of every collection, unchanged, under the new key with this chain's id; it leaves no old record, makes no other record and touches nothing else; an upgrade of a chain already upgraded changes nothing.",
 H,"all old records, chain ids and repeated upgrades",
 "An upgrade runs once, on storage nobody can replay: any record lost, doubled or made up by the order in which keys hash is permanent, and a test with two records cannot see it.",
 ["runtime/src/migrations/nfi.rs","runtime/src/migrations/mod.rs"],"AllMigrations::on_runtime_upgrade, v1::migrate")
p("C40","Every transaction is charged exactly once, to the account that must pay",
 "An admitted transaction costs its payer (the signer; for a call a delegate makes through a futurepass, the futurepass) exactly its fee: for a native transaction the computed fee and tip, for an Ethereum transaction the gas used at the base fee plus its tip price, to the drop and never above its cap. The base fee goes to the fee pot, an Ethereum tip to the block author, no XRP is made or lost, and the nonce advances by one. A transaction its payer cannot cover is refused without a trace.",
 H,"all balances, tips, gas prices, limits, outcomes and payers, over histories of both kinds of transaction",
 "Charges combine withdrawal, refund and rounding between 6 and 18 decimals across four pallets; tests check each part with round numbers and mocks of the others.",
 ["runtime/src/impls.rs","pallet/fee-proxy/src/impls.rs","pallet/tx-fee-pot/src/lib.rs"],"EvmCurrencyScaler, FutureverseEVMCurrencyAdapter, FeeProxy OnChargeTransaction, FuturepassLookup payer switch, TxFeePot")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x
        f.write(json.dumps(x)+"\n")
print(len(P))
