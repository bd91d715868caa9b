#!/usr/bin/env python3
# Writes properties.jsonl (kept as code only so that the anchors stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","Replicas that execute the same blocks stay identical",
 "Every node that executes the same genesis and the same sequence of blocks obtains the same state hash, the same result (code, data, gas, log) and events for every transaction and the same validator updates for every block. This does not depend on the node's local settings (pruning, caches, minimum gas price), on which transactions it checked, simulated or queried in between, on how often it was restarted, or on in-process randomness such as map order.",
 ["schedules","histories","configurations","fault_sequences"],"all block sequences, all interleavings of blocks with mempool checks, simulations and queries, all local configurations",
 "Unit tests drive one application instance with a faked Merkle store and one fixed message order; none compares two instances, and none exercises commit, real state hashes or check/query traffic.",
 ["app/app.go","x/noding/abci.go","x/noding/keeper/keeper.go","x/referral/keeper/bunch_updater.go","x/referral/keeper/keeper.go","x/schedule/keeper/keeper.go","util/msg_server.go"],
 [("message handlers, begin/end blockers free of local inputs","x/*/keeper, x/*/abci.go"),("separate check and deliver state","app/app.go via baseapp")],
 observe=["ABCI Commit, DeliverTx, EndBlock responses"])
p("C02","Crash and restart neither lose nor change committed state",
 "If a node that has committed a block and keeps at least one recent version of its state stops at any instant (including in the middle of executing or committing a block, with any suffix of not yet synced writes lost), then after restart it reports a height it really committed, re-executing the following blocks succeeds, and it ends with exactly the state hash, results and queryable state of a node that never stopped.",
 ["crash_points","histories","fault_sequences"],"every crash point between and inside ABCI calls and inside the batched writes of a commit, every amount of unsynced data lost",
 "No test restarts the application; the test helper never commits and uses a faked Merkle mode.",
 ["app/app.go","cmd/artrd/main.go","x/schedule/keeper/keeper.go","x/noding/abci.go"],
 [("all consensus state lives in mounted stores, none in memory of keepers","app/app.go, x/*/keeper"),("multistore commit: substores first, commit info last","app/app.go (cosmos-sdk rootmulti)")],
 observe=["Info after restart","Commit hashes of re-executed blocks"])
p("C03","Coin supply always equals the sum of all balances",
 "At every block, and after every single transaction, for every denomination the recorded total supply equals the sum of the balances of all accounts and module accounts, and no balance is negative. Supply grows only through delegation accruals and shrinks only through burning (explicit burns, the burned share of fees, the burned share of revocations), by exactly the amounts burned or accrued.",
 ["histories","inputs"],"all transaction and scheduled-task histories, including failing and partially executed ones",
 "Tests check a few transfers; no test checks conservation after sequences of delegations, revocations, fee splits, accruals and failing tasks.",
 ["x/bank/internal/keeper/keeper.go","x/bank/internal/keeper/send.go","x/bank/internal/keeper/view.go","x/delegating/keeper/keeper.go","x/noding/keeper/keeper.go"],
 [("supply inflate/deflate next to every mint, burn and denomination change","x/bank/internal/keeper, x/delegating/keeper/keeper.go"),("fee burn","x/noding/keeper/keeper.go")],
 state=[("supply","total per denomination","x/bank"),("balances","coins per account","x/bank")])
p("C04","A transaction applies entirely or not at all, and at most once",
 "A transaction that fails while it is executed changes nothing except its declared fee and its signers' sequence numbers; one rejected before execution changes nothing at all. A signed transaction takes effect at most once, however often and in whatever order the network delivers it to nodes and into blocks.",
 ["inputs","histories","fault_sequences"],"all transactions, including multi-message ones failing at any message, out-of-gas at any point, duplicated, replayed and reordered deliveries",
 "Tests call keepers directly, without signatures, sequence numbers, gas limits or multi-message transactions.",
 ["app/app.go","x/bank/internal/keeper/keeper.go","x/profile/keeper/msg_server.go","x/profile/keeper/subscription.go","x/referral/keeper/bunch_updater.go"],
 [("ante handler with sequence check","app/app.go"),("errors returned (not swallowed) by every handler","x/*/handler.go, x/*/keeper/msg_server.go")])
p("C05","Only the owner or a listed authority can change something",
 "A transaction can decrease an account's balances or delegation, or change its profile settings, subscription, validator switch, referrer-transfer request or votes, only if that account signed it; resource consumption, earning marks and the token rate change only by accounts on the respective signer lists, government decisions only by government members. Anything else is rejected without effect.",
 ["inputs","histories"],"all senders, targets and message kinds in any state of the chain",
 "Tests call keeper methods as the right party; nothing sends a message signed by someone else or a non-listed signer.",
 ["x/earning/keeper/msg_server.go","x/profile/keeper/msg_server.go","x/voting/keeper/keeper.go","x/referral/keeper/msg_server.go","x/noding/keeper/msg_server.go","x/bank/internal/keeper/msg_server.go","x/delegating/types/msgs.go"],
 [("GetSigners of each message","x/*/types/msgs.go"),("signer list checks","x/profile/keeper/msg_server.go, x/earning, x/voting")])
p("C06","Scheduled work runs exactly once, not early, and in isolation",
 "Every scheduled task runs exactly once, in the first block whose time is at or after its due time (tasks in order of due time), unless it was cancelled before; however far block time jumps, no task is lost, repeated or run early. A task that fails neither prevents the remaining tasks nor leaves partial effects behind.",
 ["schedules","histories","fault_sequences"],"all block-time sequences (tiny steps, exact hits, jumps over many due times, long halts), all mixes of tasks sharing a due time or rescheduling themselves into due slots, failing tasks",
 "Tests advance time in fixed small steps with one task at a time; they never let two tasks share a slot, let a task schedule into a slot that is already due, or let one fail.",
 ["x/schedule/keeper/keeper.go","x/schedule/abci.go","app/app.go"],
 [("time-keyed task queue drained in BeginBlock","x/schedule/keeper/keeper.go"),("recover around each task","x/schedule/keeper/keeper.go")],
 state=[("task queue","due time -> tasks","x/schedule")])
p("C07","Delegated coins return in full, once, when due",
 "Delegating converts exactly the amount minus the transaction fee into delegated coins; revoking moves exactly the requested amount out of delegation at once, burns exactly the configured share (regular or express) and creates one pending request for the rest, which is paid back as spendable coins exactly once, in the first block at or after the configured period. At all times an account's revoking balance equals the sum of its pending requests.",
 ["histories","schedules"],"all interleavings of delegate, revoke, express revoke, banishment, parameter changes and block times",
 "Tests cover one delegate/revoke pair at a fixed time; overlapping requests with different periods, simultaneous due times, restarts and time jumps are not covered.",
 ["x/delegating/keeper/keeper.go","x/delegating/keeper/hooks.go","x/delegating/types/types.go"],
 [("revoke requests plus one schedule task per request","x/delegating/keeper/keeper.go"),("undelegate on due requests","x/delegating/keeper/hooks.go")],
 state=[("requests","pending revocations","x/delegating record"),("revoking balance","coins being revoked","x/bank")])
p("C08","Delegation accrues exactly the configured income",
 "A delegation above the dust limit accrues once per day, and pro rata for the partial day when its amount changes, the daily rate from the percentage table for its size plus the bonuses for being an active validator, subscriber, VPN or storage earner at that moment; the fee share is withheld and the network of active validators above receives exactly its configured shares. Nothing is accrued twice for the same period, nothing for a delegation at or below the dust limit, and a delegation above the dust limit always has exactly one future accrual planned (as long as the percentage for its size was not zero at its last accrual).",
 ["histories","schedules"],"all histories of delegations, revocations, status, validator and subscription changes, and all block-time sequences",
 "Tests accrue one account over one or two days with fixed bonuses.",
 ["x/delegating/keeper/keeper.go","x/delegating/keeper/hooks.go","x/delegating/types/params.go","x/referral/keeper/keeper.go","x/earning/keeper/keeper.go","util/fraction.go","util/fee.go"],
 [("accrue task, rescheduled daily","x/delegating/keeper/hooks.go"),("partial accrual before every change","x/delegating/keeper/keeper.go")],
 state=[("next accrue","time of next accrual","x/delegating record")])
p("C09","The referral structure is always a consistent forest",
 "Following referrers from any account ends at a top-level account without a cycle; an account is listed among the referrals of exactly its own referrer, once, and nowhere else; the list of active referrals is exactly the referrals that are active. No operation loses an account or adds it twice.",
 ["histories","schedules"],"all histories of registrations, transfers of referrer, activity changes, compressions, banishments and returns",
 "Tests use small fixed trees and one operation; compositions (transfer of a subtree, then compression, then return) are not covered.",
 ["x/referral/keeper/keeper.go","x/referral/keeper/hooks.go","x/referral/keeper/bunch_updater.go","x/referral/types/types.go"],
 [("parent and child records updated together","x/referral/keeper/keeper.go")],
 state=[("referrer, referrals, active referrals","tree edges","x/referral record")])
p("C10","Network totals on every level match the structure below",
 "For every account, the stored coins, delegated coins and numbers of active accounts on each of the levels of its network (itself at level zero, down to level ten) equal what one gets by walking the tree below it and adding up the actual balances and activity. This holds after every transaction and every scheduled task.",
 ["histories","schedules"],"all histories of payments, delegations, activity changes, transfers, compressions and banishments on trees deeper than ten levels",
 "Tests compare a few totals in shallow fixed trees; depth limits (level ten and beyond) combined with moving subtrees are not covered.",
 ["x/referral/keeper/keeper.go","x/referral/keeper/bunch_updater.go","x/referral/types/types.go"],
 [("incremental propagation of deltas to ancestors","x/referral/keeper/keeper.go, bunch_updater.go"),("balance hook","app/app.go")],
 state=[("Coins, Delegated, ActiveRefCounts","per level totals","x/referral record")])
p("C11","Status follows the published requirements",
 "An account's status never exceeds what it qualifies for, except during one grace period per lost level that ends with a downgrade by one level if the requirements are still not met then; a gained qualification raises the status at once, and meeting the requirements again cancels the pending downgrade. A pending downgrade date exists exactly when the account is below the requirements of its current status.",
 ["histories","schedules"],"all histories of changes in the account's network and subscription, all block-time sequences",
 "Tests build a status up once and let it decay once in a fixed tree.",
 ["x/referral/keeper/status_requirements.go","x/referral/keeper/bunch_updater.go","x/referral/keeper/hooks.go","x/referral/keeper/keeper.go"],
 [("status check on every change below","x/referral/keeper/bunch_updater.go"),("downgrade task","x/referral/keeper/hooks.go")],
 state=[("status","level 1..10","x/referral record"),("status downgrade at","grace deadline","x/referral record")])
p("C12","Inactive accounts are compressed and banished only when due",
 "An account is compressed (its referrals handed to its referrer) only after it stayed without a paid subscription for the whole compression period and not while it is active, and is banished only when the banishment period after that also passed and it holds no more than dust delegation; a subscription payment at any time before stops both. A banished account loses its place in the network and its delegation is revoked, and when it pays again it returns under its former referrer (or that one's referrer if that one is gone), exactly once.",
 ["schedules","histories"],"all orders of subscription payments, expiry, delegation changes and block times, including payments in the very block of a deadline",
 "Tests trigger one compression and one banishment in isolation.",
 ["x/referral/keeper/keeper.go","x/referral/keeper/hooks.go","x/profile/keeper/subscription.go","x/delegating/keeper/hooks.go"],
 [("compression and banishment tasks guarded by the recorded deadline","x/referral/keeper/hooks.go"),("ScheduleCompression/ScheduleBanishment/ComeBack","x/referral/keeper/keeper.go")])
p("C13","Changing the referrer needs the consent of all parties",
 "A request to move an account under a new referrer charges the transfer price once, is possible only to a legal destination (not itself, not inside its own network, not its current referrer, no other request pending), and takes effect only when the current referrer approves it; declining, cancelling or letting it run out one day leaves the structure unchanged. A request expires exactly one day after it was made, never earlier, and the moved account keeps its whole network.",
 ["histories","schedules"],"all orders of requests, answers, repeated requests, compressions, banishments and timeouts",
 "Tests cover one request answered once; a second request after a declined one, or moves racing with compression, are not covered.",
 ["x/referral/keeper/keeper.go","x/referral/keeper/hooks.go","x/referral/keeper/msg_server.go"],
 [("transition field plus timeout task","x/referral/keeper/keeper.go")])
p("C14","Consensus engine and chain agree on the validator set",
 "Every validator update the chain hands to the consensus engine is acceptable to it (known key type, no key twice, removals only of present validators, never an empty set while a qualified validator is switched on) and after applying it the engine's set and voting powers are exactly those the chain computed for its active validators. No two active validators share a consensus key.",
 ["histories","schedules"],"all histories of switching on and off, key changes, jailing, banning, qualification changes and parameter changes, in any combination inside one block",
 "Tests inspect returned updates for one change at a time and never feed them to a validator set that enforces the engine's rules.",
 ["x/noding/keeper/keeper.go","x/noding/abci.go","x/noding/keeper/lottery.go","x/noding/keeper/vp_generator.go"],
 [("GatherValidatorUpdates","x/noding/keeper/keeper.go"),("index of consensus keys","x/noding/keeper/keeper.go")])
p("C15","Validators are chosen and weighted by the rules",
 "The candidates are the switched-on accounts, neither jailed nor banned, that meet the criteria (status, own delegation, delegation in the network) or are staff. The active validators are the candidates with the highest scores up to the configured number, plus the configured number of lottery winners taken in turn from the rest; voting power follows the configured distribution by rank. An account that stops meeting the criteria stops validating, and only accounts meeting them (or staff) can be switched on.",
 ["histories","configurations"],"all populations of candidates, ties, parameter settings and changes over time",
 "Tests check the choice for two or three fixed candidates.",
 ["x/noding/keeper/keeper.go","x/noding/keeper/lottery.go","x/noding/keeper/vp_generator.go","x/noding/types/types.go"],
 [("GatherValidatorUpdates, lottery queue, voting power generator","x/noding/keeper")],
 state=[("lottery queue","order of candidates waiting","x/noding index store")])
p("C16","Missed blocks jail, double signing bans, and only waiting unjails",
 "A validator that misses the configured number of consecutive blocks is jailed and leaves the validator set; a signed block resets the count; it can return only by its own request after the waiting time, as long as it is still qualified and not banned. The first evidence of double signing is recorded and costs the validator its place in the lottery queue, the second one bans its account for good: a banned account never validates again. A general amnesty resets missed-block counts but lifts no ban.",
 ["histories","fault_sequences"],"all sequences of signed and missed blocks, evidence, restarts, unjail attempts and amnesty",
 "Tests feed one or two hand-written vote sequences.",
 ["x/noding/abci.go","x/noding/keeper/keeper.go","x/noding/keeper/msg_server.go"],
 [("strokes and ticks on every BeginBlock","x/noding/keeper/keeper.go")])
p("C17","Fees are taken and split exactly as configured",
 "Every fee-bearing operation charges exactly the configured percentage, capped by the configured maximum and rounded down to an amount that divides without remainder; at the next block collected fees are split exactly into the proposer's, the company's and the burned share, and the gas fees go to the proposer; nothing remains, vanishes or is paid twice.",
 ["histories","configurations"],"all amounts, ratios, caps, proposers (including ones that are unknown, jailed or banned) and block sequences",
 "Tests use one ratio and one proposer.",
 ["util/fee.go","x/bank/internal/keeper/send.go","x/bank/internal/keeper/msg_server.go","x/noding/keeper/keeper.go","x/noding/abci.go"],
 [("PayTxFee and SplittableFeeCollector","x/bank/internal/keeper"),("PayProposerReward","x/noding/keeper")])
p("C18","Government proposals are decided by the vote and applied once",
 "At most one proposal is open; each member of government votes at most once; a proposal is accepted exactly when all current members voted and at least two thirds agreed, at the moment of the last vote, and otherwise it lapses at the end of the voting period without effect. An accepted proposal changes exactly the parameter or list it names, once, to a legal value (a vote that would put an illegal one into force is refused), and every finished proposal is recorded in the history; government always remains able to decide.",
 ["histories","schedules"],"all proposals, voters, vote orders, deadlines and repeated additions or removals of members",
 "Tests run one proposal of a few kinds through one voting order.",
 ["x/voting/keeper/keeper.go","x/voting/keeper/government.go","x/voting/types/types.go"],
 [("Propose/Vote/EndProposal","x/voting/keeper/keeper.go"),("scheduled end","x/voting/keeper/keeper.go")])
p("C19","Polls count every eligible answer exactly once",
 "While a poll is open, each eligible account (by validator qualification or status) is counted at most once and nobody else is; at the announced end the recorded yes and no numbers equal the answers given, the decision follows the quorum, the result enters the history and all traces of the poll are removed so that the next one starts from zero. At most one poll is open.",
 ["histories","schedules"],"all answer sequences, respondents, quorums and deadlines over several consecutive polls",
 "Tests run a single poll.",
 ["x/voting/keeper/keeper.go","x/voting/types/types.go"],
 [("StartPoll/Answer/EndPoll","x/voting/keeper/keeper.go")])
p("C20","Subscription is active exactly while it is paid",
 "An account is active exactly until the end of the period it paid for: each tariff payment (manual, or automatic at expiry when auto-pay is on and funds suffice) extends it by exactly one month and charges exactly the current price; expiry without payment deactivates it in the referral network in the first block at or after the end. Activity as seen by the referral network always equals the profile's paid-until date, and nobody becomes active without payment.",
 ["histories","schedules"],"all orders of payments, expiries, balances, price and rate changes and block times",
 "Tests pay one tariff and expire it once.",
 ["x/profile/keeper/subscription.go","x/profile/keeper/keeper.go","x/profile/types/msgs.go","x/referral/keeper/keeper.go"],
 [("ActiveUntil and renewal task","x/profile/keeper/subscription.go"),("MustSetActive on change","x/profile/keeper/keeper.go")])
p("C21","Purchased storage, VPN traffic and messenger space are exact",
 "Buying storage, VPN traffic or messenger space charges exactly the configured price (pro rata for the remaining period where applicable) and raises exactly the bought limit; giving up lowers it as requested but never below what is in use or the base allowance; limits expire or reset exactly with their period. A purchase or renewal that cannot be paid in full changes nothing.",
 ["histories","inputs"],"all orders of purchases, give-ups, consumption reports, renewals and balances, at any moment of the period",
 "Tests buy once at a fixed moment.",
 ["x/profile/keeper/subscription.go","x/profile/types/types.go"],
 [("BuyStorage, BuyVpn, BuyImStorage, Give*, prolongImExtra, resetLimits","x/profile/keeper/subscription.go")])
p("C22","Nicknames and card numbers identify at most one account",
 "At any time no two accounts hold the same nickname (ignoring case) or card number, looking up an account's nickname or card number yields that account, names nobody holds resolve to nobody and are free to take, and an account's card number never changes. A rename charges the rename fee once.",
 ["histories","inputs"],"all sequences of registrations and renames, including case variants, spaces, releases and failing renames",
 "Tests set one nickname.",
 ["x/profile/keeper/keeper.go","x/profile/keeper/msg_server.go","x/profile/types/msgs.go"],
 [("alias and card indexes updated with the profile","x/profile/keeper/keeper.go")])
p("C23","Exporting the state and starting from it changes nothing",
 "Exporting the state at any height yields a genesis that passes validation and that a new chain accepts, and the new chain has the same accounts, balances, supply, network, statuses, delegations, requests, validators, votes, polls, subscriptions, parameters and planned tasks as the exporting one (a planned software upgrade excepted, which the framework below does not export); running on, both behave the same.",
 ["histories","crash_points"],"all reachable states, exported at any height",
 "Round-trip tests export freshly initialised or nearly unchanged states.",
 ["app/export.go","x/delegating/keeper/genesis.go","x/noding/genesis.go","x/profile/keeper/genesis.go","x/referral/genesis.go","x/referral/keeper/genesis.go","x/schedule/keeper/genesis.go","x/voting/genesis.go","x/bank/internal/keeper/genesis.go","x/earning/genesis.go"],
 [("InitGenesis/ExportGenesis of every module","x/*/genesis.go")])
p("C24","No input or timing stops the chain",
 "Whatever transactions users submit and however block times, votes and evidence fall, executing a block never panics, hangs or exits outside an agreed upgrade halt, and a well-formed transaction from a funded account submitted after faults cease is committed within a bounded number of blocks on every node.",
 ["inputs","histories","fault_sequences"],"all transactions (well-formed or not), block-time jumps, missed votes, evidence and node crashes",
 "Tests never execute whole blocks with arbitrary transactions.",
 ["app/app.go","x/noding/abci.go","x/noding/keeper/keeper.go","x/schedule/keeper/keeper.go","x/referral/keeper/keeper.go","x/delegating/keeper/hooks.go"],
 [("recover in tx execution and scheduled tasks","cosmos-sdk baseapp, x/schedule/keeper/keeper.go"),("error handling in begin/end blockers","x/noding/abci.go")])
p("C25","A voted upgrade halts every node at the same block",
 "Once the time of an accepted upgrade plan is reached, every node that does not know the upgrade stops before executing that block, on every restart, with its state unchanged; every node that knows it applies the upgrade exactly once and all of them continue identically. A cancelled plan halts nobody.",
 ["crash_points","histories","configurations"],"all plan times, crash and restart points around the upgrade block, mixes of old and new binaries",
 "No test executes an upgrade plan.",
 ["app/app.go","app/upgrade.go","x/voting/keeper/keeper.go"],
 [("upgrade begin blocker runs first","app/app.go"),("plan scheduled by an accepted proposal","x/voting/keeper/keeper.go")])
p("C26","Transfers move exactly the stated amount",
 "A transfer debits the sender by exactly the amount plus the transaction fee on it, credits the recipient with exactly the amount (the fee goes to the fee pool), and is refused without effect if the sender lacks funds, is blocked, sends less than the minimum or sends coins that are not freely transferable (delegated or being revoked); a burn destroys exactly the stated amount of the owner's coins.",
 ["inputs","histories"],"all amounts, denominations, senders, recipients (also new, module and banished accounts) and multi-party transfers",
 "Tests cover a few fixed transfers.",
 ["x/bank/internal/keeper/send.go","x/bank/internal/keeper/keeper.go","x/bank/internal/keeper/msg_server.go","x/bank/types/msgs.go","util/fee.go"],
 [("SendCoins, InputOutputCoins, PayTxFee","x/bank/internal/keeper")])
p("C27","Earning marks are set by signers and expire after two days",
 "An account counts as VPN or storage earner exactly from when a listed signer reported it until two days after the reported time, independently for the two kinds; reports by others have no effect, and withdrawing a mark ends it at once.",
 ["histories","schedules"],"all report sequences, reporters and block times",
 "Tests set and read one mark.",
 ["x/earning/keeper/keeper.go","x/earning/keeper/msg_server.go","x/earning/keeper/params.go"],
 [("timestamps checked against block time","x/earning/keeper/keeper.go")])
p("C28","Registration creates each account once, in its place",
 "A registration charges the creator the configured price once (listed creators nothing) and creates exactly one inactive account under the stated referrer, with its own card number and its nickname if free; registering an existing account, with an unknown referrer, or with a taken nickname has no effect. A registration never grants a subscription, limits or other paid benefits.",
 ["inputs","histories"],"all creators, addresses, referrers and submitted profiles",
 "Tests register one account with a benign profile.",
 ["x/profile/keeper/keeper.go","x/profile/keeper/msg_server.go","x/profile/types/msgs.go","x/referral/keeper/keeper.go"],
 [("CreateAccountWithProfile","x/profile/keeper/keeper.go"),("AppendChild","x/referral/keeper/keeper.go")])
p("C29","Queries answer exactly the committed state",
 "A query for the latest or any retained height is answered exactly from the state committed at that height - balances, supply, the referral structure and its sums, profiles by name and card number, validators and their places, proposals and polls, scheduled tasks, earning marks and parameters - never from effects of a block still in execution, also right after a restart or an import. The dry-run queries (whether a transition, a status or a validator's place would be granted, what an accrual will bring) say what the chain then does. No query changes anything.",
 ["schedules","histories","crash_points"],"all queries, heights and moments of asking: between any two calls of a block, after restarts and imports",
 "Tests call a few keeper getters on one state; none asks a running node.",
 ["x/bank/internal/keeper/grpc_querier.go","x/referral/keeper/query_server.go","x/profile/keeper/query_server.go","x/noding/keeper/query_server.go","x/delegating/keeper/query_server.go","x/voting/keeper/query_server.go","x/schedule/keeper/query_server.go","x/earning/keeper/query_server.go","app/app.go"],
 [("query servers and legacy queriers","x/*/keeper/query_server.go, x/*/keeper/querier.go"),("query contexts on committed multistore versions","cosmos-sdk baseapp")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
