#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Coins are conserved: supply equals the sum of all balances",
 "At every block boundary and after every transaction, for each denomination the total supply equals the sum of all account balances (users, company and module accounts), and no balance is ever negative. Coins come into being only by delegation accruals and by delegating (which turns liquid coins into the same number of delegated ones), and cease to exist only by burning: burn messages, the burnt share of a revocation, the burnt share of transaction fees and the conversion of delegated coins.",
 ["histories", "inputs"], "every sequence of messages, blocks, validator votes and scheduled events, every parameter set that validates, every amount",
 "Unit tests look at one operation each with hand-picked amounts; nothing adds up all accounts over a mixed history with rounding in several modules.",
 ["x/bank/keeper/keeper.go", "x/delegating/keeper/keeper.go", "x/noding/keeper/keeper.go", "x/profile/keeper/keeper.go"],
 [("supply bookkeeping", "x/bank/keeper: AddCoins/SubtractCoins/MintCoins/BurnAccCoins"), ("delegation conversion", "x/delegating/keeper: delegate/undelegate")],
 "balances, supply", "after every message, scheduled task and block")
prop("C02", "Transfers move exactly the amount plus the published fee, or nothing",
 "A transfer succeeds only if the recipient is an existing account that may receive coins, every coin is transferable and at least the minimum, the sender is not blocked and can pay amount plus fee; it then takes exactly amount plus fee from the sender, credits exactly the amount to the recipient and the fee to the fee pool. The fee is the configured fraction of the amount, cut to the configured maximum (if any) and rounded down so that it can be shared in the configured ratios without a remainder; a refused transfer moves nothing.",
 ["inputs", "configurations"], "all amounts, all denominations, all fee parameters, blocked/unknown/self recipients, all balances",
 "Tests fix one or two fee settings and amounts; rounding, caps and split ratios interact over the whole parameter range.",
 ["x/bank/keeper/msg_server.go", "x/bank/keeper/keeper.go", "x/bank/types/params.go", "util/fraction.go"],
 [("fee computation", "x/bank/keeper: PayTxFee/CalculateFee"), ("send checks", "x/bank/keeper/msg_server.go Send")],
 "balances, fee pool", "after every transfer")
prop("C03", "Collected fees are paid out in full, in the configured ratios",
 "At the start of every block the transaction fees collected in the fee pool are divided in the configured ratios between the block proposer, the company account and burning, the shares adding up exactly to the pool, and the remaining fee income goes to the proposer; afterwards both fee pools are empty. Nobody else receives anything, and when the proposer is not a known validator no coins get lost or appear.",
 ["histories", "configurations"], "every sequence of fee-paying messages, every split-ratio setting, every proposer",
 "Existing tests check single splits with one setting.",
 ["x/bank/keeper/keeper.go", "x/noding/abci.go", "x/noding/keeper/keeper.go"],
 [("fee split", "x/bank/keeper SplitFee"), ("proposer reward", "x/noding/keeper PayProposerReward")],
 "fee collector balances, proposer balance", "BeginBlock")
prop("C04", "Revoked delegations come back exactly once, on time, minus the burn",
 "Delegating turns exactly the offered amount (minus fee) of liquid coins into delegated ones; revoking takes exactly the requested amount out of the delegated balance, burns exactly the configured share and pays the rest back once, in liquid coins, when the configured period has passed and not earlier. At all times the frozen balance of an account equals the sum of its pending revocations, and nobody can revoke more than is delegated.",
 ["histories", "schedules", "inputs"], "all interleavings of delegations, revocations (normal and express), other coin movements, parameter changes and block times",
 "Tests run one revocation at a time; overlapping requests, block-time jumps and banishment in between are not covered.",
 ["x/delegating/keeper/keeper.go", "x/delegating/keeper/msg_server.go"],
 [("revocation", "x/delegating/keeper Revoke/revoke/MustPerformRevoking"), ("delegation", "x/delegating/keeper Delegate")],
 "delegated and frozen balances, pending requests, schedule", "after every message and scheduled task")
prop("C05", "Delegation interest accrues pro rata, once per period, never twice",
 "A delegation above dust is paid its interest once per day (of scheduler time) counted from its last change, at the yearly rate its size and the owner's validator, subscription, VPN and storage bonuses entitle it to at that moment, divided by 30 days; whenever the delegation changes in between, the part of the day that has passed is paid at once and a new day begins. No stretch of time is paid twice, and every account with a delegation above dust and a rate has exactly one next payment scheduled, an account without has none.",
 ["histories", "schedules", "inputs"], "all interleavings of balance changes with payment times, missed blocks, rate tables and bonuses",
 "Tests check single accruals at fixed times with one table.",
 ["x/delegating/keeper/keeper.go", "x/delegating/types/types.go", "x/delegating/types/params.go"],
 [("accrual", "x/delegating/keeper MustPerformAccrue/accruePart/accrue"), ("rate table", "x/delegating/keeper getPercent")],
 "next payment time, accumulation, schedule", "after every message and scheduled task")
prop("C06", "Scheduled tasks run exactly once, in order, and never early",
 "Every task scheduled for some time is performed exactly once, in the first block whose time has reached it (a task added by another task of a block for a time already reached: in that block or the next), in the order of due times and, for equal times, of scheduling, unless it was cancelled before; a cancelled task is not performed. A crash inside one task affects no other task, and neither a node restart nor an export/import of the chain loses, duplicates or reorders tasks.",
 ["histories", "schedules", "fault_sequences"], "all sequences of scheduling and cancelling (also from inside tasks), all block times, crashes in tasks, restarts",
 "Tests schedule one or two tasks; tasks that schedule or cancel other due tasks, equal times and crashes are combinatorial.",
 ["x/schedule/keeper/keeper.go", "x/schedule/abci.go"],
 [("performing", "x/schedule/keeper PerformSchedule"), ("queue", "x/schedule/keeper ScheduleTask/Delete/DeleteAll")],
 "task queue", "BeginBlock")
prop("C07", "Referral aggregates always equal what the tree says",
 "For every account and each of its ten downline levels, the recorded coins, delegated coins and active members equal the sums over the accounts that are that far below it in the referral tree, whatever transfers, registrations, activations, compressions, banishments and moves happened before. The same holds for the recorded list of its active direct referrals and the numbers of its active members per level.",
 ["histories", "inputs"], "all tree shapes deeper than ten levels included, all interleavings of coin movements and structural changes",
 "Tests use one fixed small tree; the incremental updates have to be right after any order of structural changes at any depth.",
 ["x/referral/keeper/keeper.go", "x/referral/keeper/bunch_updater.go"],
 [("incremental aggregates", "x/referral/keeper UpdateReferral/OnBalanceChanged, SetActive, Compress"), ("move", "x/referral/keeper AffirmTransition")],
 "per-account aggregates", "after every message and scheduled task")
prop("C08", "The referral structure is a forest with matching links",
 "At all times every account has at most one referrer, is listed exactly once among that referrer's referrals and nowhere else, and following referrers never leads in a circle; an account is linked to a referrer only by its registration, by compression, by an approved move or by coming back from banishment. Registration is refused for accounts that already are in the structure and for referrers that are not.",
 ["histories"], "all interleavings of registrations, compressions, banishments, comebacks and moves",
 "Tests check a handful of single operations on one tree.",
 ["x/referral/keeper/keeper.go"],
 [("links", "x/referral/keeper AppendChild/addTopLevelAccount/Compress/Banish/ComeBack/AffirmTransition")],
 "referrer and referral links", "after every message and scheduled task")
prop("C09", "A referral status is held only while its requirements are met",
 "An account's status rises to the highest level whose published requirements are met as soon as they are met; when the requirements of the current status stop being met, a two-day grace period starts, after which the status falls by one level at a time unless the requirements are met again in the meantime, in which case it is kept. The requirements depend only on the account's team: delegated coins on the levels that count and the number and teams of its active referrals.",
 ["histories", "schedules"], "all team shapes and their changes over time, grace periods that overlap with recoveries",
 "Tests check a few fixed teams per status.",
 ["x/referral/keeper/status.go", "x/referral/keeper/keeper.go"],
 [("requirements", "x/referral/keeper checkStatusRequirements"), ("downgrade", "x/referral/keeper PerformDowngrade/setStatus")],
 "status, downgrade time", "after every message and scheduled task")
prop("C10", "Inactive accounts are compressed, then banished, exactly when due",
 "An account whose subscription lapses is compressed after two inactive months - its referrals pass to its referrer in full - and banished a month after it became eligible, unless it becomes active again first, which cancels what is pending; an active account is never compressed or banished. A banished account that pays again returns to the structure under its old line, and every account that must be compressed or banished has exactly that deadline scheduled.",
 ["histories", "schedules"], "all activity patterns around the deadlines, several generations at once",
 "Tests take one account through one cycle.",
 ["x/referral/keeper/keeper.go", "x/profile/keeper/keeper.go"],
 [("compression", "x/referral/keeper Compress/ScheduleCompression"), ("banishment", "x/referral/keeper Banish/ComeBack")],
 "compression/banishment deadlines, links, schedule", "after every message and scheduled task")
prop("C11", "A team moves only with consent, once, and is charged for it",
 "An account moves to another referrer only after it asked for it, paid the transition price and its current referrer agreed before the deadline; only the current referrer can decide, at most one request is pending per account, and a request that is declined or not answered in time is dropped without moving anybody. A move into one's own team, to the current referrer or to a destination that is full or unknown is refused.",
 ["histories", "schedules", "inputs"], "all orders of requests, decisions, deadlines and structural changes in between",
 "Tests cover the direct approve/decline paths only.",
 ["x/referral/keeper/keeper.go", "x/referral/keeper/msg_server.go"],
 [("transition", "x/referral/keeper RequestTransition/CancelTransition/AffirmTransition")],
 "pending transition, links", "after every message and scheduled task")
prop("C12", "Validators are jailed, released and banned exactly by the rules",
 "A validator that misses the configured number of blocks in a row is jailed for the configured number of blocks and cannot produce blocks until it is released on its own request after that time; the first double-signature evidence against it is recorded, a second one bans it for good. Signing a block resets its count of missed blocks, and nothing else jails, releases or bans a validator.",
 ["histories", "schedules", "fault_sequences"], "all sequences of votes, evidence, unjail requests, amnesties and parameter changes",
 "Tests drive one validator through one jail cycle.",
 ["x/noding/keeper/keeper.go", "x/noding/abci.go"],
 [("jail", "x/noding/keeper MarkStroke/MarkTick/MarkByzantine/Unjail")],
 "validator records", "BeginBlock, after every message")
prop("C13", "The consensus engine's validator set follows the chain's",
 "Applying the validator updates that the application hands out block by block always yields exactly the set of validators the application considers working, with exactly the powers it assigns: the best-ranked active, unjailed validators up to the configured maximum, plus the lottery winners. No update list contains the same key twice, and a validator that was switched off, jailed, banned or disqualified has power zero from the next block.",
 ["histories", "schedules"], "all histories of joining, leaving, jailing, key changes, ranking changes and parameter changes",
 "Tests look at single update lists; correctness is about their accumulation over a history.",
 ["x/noding/keeper/keeper.go", "x/noding/abci.go"],
 [("updates", "x/noding/keeper GatherValidatorUpdates"), ("powers", "x/noding/keeper VpGenerator")],
 "accumulated updates vs validator records", "EndBlock")
prop("C14", "One working validator per consensus key",
 "At no time are two accounts working validators with the same consensus key, whatever keys are announced and in whatever order validators join, leave, get jailed and return. Votes, evidence and rewards for a key are always attributed to the account that currently operates it.",
 ["histories", "inputs"], "all interleavings of switching on/off with arbitrary keys, jailing, unjailing, bans",
 "Tests use distinct keys except in one refusal test.",
 ["x/noding/keeper/keeper.go"],
 [("key index", "x/noding/keeper SwitchOn/SwitchOff/Unjail and the pubkey index")],
 "validator records and the key index", "after every message and block")
prop("C15", "Only qualified accounts work as validators",
 "An account can become a working validator only while it is on the staff list or meets the configured criteria for status, own stake and team stake; a working one whose status or stake changes so that it does not meet them stops being a validator at once. Lottery places go round among the eligible non-selected validators in turn.",
 ["histories", "configurations"], "all changes of stake, status and parameters while validators work",
 "Tests check switching on with static criteria.",
 ["x/noding/keeper/keeper.go"],
 [("qualification", "x/noding/keeper IsQualified/OnStakeChanged/OnStatusUpdate"), ("lottery", "x/noding/keeper lottery queue")],
 "validator records, lottery queue", "after every message and block")
prop("C16", "A proposal is decided by the government and takes effect exactly as proposed",
 "Only members of the government can propose and vote, one proposal at a time, each member at most once; a proposal ends when every member has voted or its time is up, it is accepted exactly if every member has voted and at least two thirds of them agreed, an accepted one changes exactly what it names and a rejected one changes nothing. Every finished proposal is recorded with its outcome and votes.",
 ["histories", "schedules", "inputs"], "all proposals kinds and parameter values, all orders of votes and deadlines, changes of the government by proposal",
 "Tests run a few proposals with a fixed small government.",
 ["x/voting/keeper/keeper.go", "x/voting/keeper/msg_server.go"],
 [("decision", "x/voting/keeper EndProposal/Propose/Vote"), ("effects", "x/voting/keeper EndProposal")],
 "current proposal, votes, government, module parameters, history", "after every message and scheduled task")
prop("C17", "A poll counts every entitled answer once and reports the right outcome",
 "Only government members can start a poll, one at a time; every account that meets the poll's requirements can answer exactly once while it is open and nobody else can; at its end the counts equal the answers given and the outcome follows from them and the quorum. Finished polls are recorded once.",
 ["histories", "schedules", "inputs"], "all requirements, quorums, answer orders and deadlines",
 "Tests run two or three polls.",
 ["x/voting/keeper/keeper.go", "x/voting/keeper/msg_server.go"],
 [("poll", "x/voting/keeper StartPoll/Answer/EndPoll")],
 "current poll, answers, history", "after every message and scheduled task")
prop("C18", "Nicknames and card numbers identify accounts one to one",
 "At all times a nickname leads to exactly the account whose profile carries it, ignoring case and surrounding spaces, no two accounts carry the same one, and a changed or dropped nickname is free again; the same one-to-one relation holds for card numbers. Looking up anything else yields nobody.",
 ["histories", "inputs"], "all nickname spellings and all sequences of renames, creations and lookups",
 "Tests rename one profile once.",
 ["x/profile/keeper/keeper.go"],
 [("alias index", "x/profile/keeper SetProfile"), ("card numbers", "x/profile/keeper card numbers")],
 "profiles and lookup index", "after every message")
prop("C19", "Paying for a month gives exactly a month; activity follows payment",
 "A subscription payment takes exactly the current price, shares it as configured and prolongs the subscription by exactly one month from the later of now and its current end (an automatic renewal: from its end, however late the block comes); an account is active exactly while its subscription runs, its referrer sees the same, and automatic payment happens at the end of the month exactly if it is enabled and affordable.",
 ["histories", "schedules", "inputs"], "all payment times, rates, balances, auto-pay settings",
 "Tests pay once or twice at fixed times.",
 ["x/profile/keeper/subscription.go", "x/profile/keeper/keeper.go"],
 [("payment", "x/profile/keeper PayTariff"), ("monthly routine", "x/profile/keeper HandleRenewHook/monthly routines")],
 "profile, activity, balances, schedule", "after every message and scheduled task")
prop("C20", "Extra storage, VPN and messenger volumes cost what they should",
 "Buying extra storage, VPN traffic or messenger space charges exactly the price for the volume and remaining time bought, grants exactly that volume, and grants nothing when it is not paid for; limits fall back at the end of the paid period to what is renewed (of VPN traffic, what was bought in addition and not used remains), and only the designated services can report usage.",
 ["histories", "schedules", "inputs"], "all volumes, times within the month, rates, and usage reports",
 "Tests buy one volume once.",
 ["x/profile/keeper/subscription.go", "x/profile/keeper/msg_server.go"],
 [("purchase", "x/profile/keeper BuyStorage/BuyVpn/BuyImStorage")],
 "limits, usage, balances", "after every message and scheduled task")
prop("C21", "Privileged operations are refused to everybody not entitled to them",
 "Setting the exchange rate, reporting storage or VPN usage, reporting earners, free account creation, proposing, voting and deciding on moves take effect only when signed by an account currently entitled to it; entitlements change only through accepted proposals. Every other signer is refused and changes nothing.",
 ["inputs", "histories"], "all messages, all signers, entitlement lists changing over time",
 "Tests try one wrong signer for some messages.",
 ["x/profile/keeper/msg_server.go", "x/earning/keeper/msg_server.go", "x/voting/keeper/msg_server.go", "x/referral/keeper/msg_server.go"],
 [("signer checks", "message servers of profile, earning, voting, referral")],
 "result codes and state", "after every message")
prop("C22", "An exported chain continues exactly where it stopped",
 "Exporting the state at any block boundary and starting a chain from the export succeeds and yields the same accounts, balances, referral structure, delegations, validators (records, keys and jail terms), profiles, votes, polls, earners, parameters and pending tasks; only the lottery queue and the powers last announced start afresh, because a new chain announces its validators anew. Exporting again yields the same export.",
 ["histories", "crash_points"], "every reachable state",
 "Genesis tests roundtrip hand-made states only.",
 ["x/*/genesis.go", "app/export.go", "app/app.go"],
 [("export/import", "x/*/genesis.go ExportGenesis/InitGenesis")],
 "whole state", "export and import at block boundaries")
prop("C23", "Replicas agree, whatever restarts happen in between",
 "Nodes that are given the same blocks end each of them with the same state hash, results and validator updates, no matter how often and when (between blocks or after an uncommitted one) some of them are stopped and restarted from disk, what was only simulated or checked on them, and in what order in-memory structures happen to be traversed.",
 ["histories", "crash_points", "schedules"], "all histories, all restart points",
 "Tests use one application instance.",
 ["app/app.go", "x/*/keeper"],
 [("deterministic state machine", "app/app.go; all keepers")],
 "state hash, results, validator updates", "every block")
prop("C24", "A failed transaction changes nothing but the fee it paid",
 "A transaction that is refused leaves every module's state as it was, except that its declared transaction fee is taken and the signer's sequence number advances once it passed authentication; several messages in one transaction take effect all together or not at all. Merely checking or simulating a transaction never changes the committed state.",
 ["inputs", "histories"], "all messages failing at any point, multi-message transactions, all gas limits",
 "Tests check the error and sometimes one field.",
 ["x/*/keeper", "app/app.go"],
 [("transaction atomicity", "baseapp with the keepers of all modules")],
 "all stores", "before and after every transaction")
prop("C25", "Earners count as active for two days after their report and no longer",
 "An account counts as VPN or storage earner exactly while less than two days have passed since the time last reported for it (a later report replaces an earlier one, one without a time withdraws it); queries list every account with a report that still counts with exactly its times and nobody who was not reported, and the delegation bonus follows the same rule. A report for several accounts takes effect for all of them.",
 ["histories", "inputs"], "all report sequences and times",
 "Tests report once and query at one or two moments.",
 ["x/earning/keeper/keeper.go", "x/earning/keeper/msg_server.go"],
 [("activity window", "x/earning/keeper Set/GetEarners/IsActiveEarner")],
 "earner records", "queries at any time")
prop("C26", "Queries answer from the last committed state",
 "Whatever a query service of a module is asked (balances, supply, parameters, delegations and revocations, interest accumulated so far, referral records, coins of a team down to any depth or without limit, status entitlement, possible moves, accounts of a status, validators with their states, queue, operators and proposers, profiles by address, nickname or card number, earners, government, current proposal and poll, histories by page, scheduled tasks by time window), the answer is the one that the state after the last committed block defines - or, when an earlier height is asked about and still kept, the state after that block. Transactions of the block being built, checked or simulated ones never show, a restart changes no answer, consecutive pages and adjacent windows neither repeat nor omit anything, what does not exist is reported as not found, and asking changes nothing. The older query interface gives the same answers.",
 ["inputs", "histories", "schedules", "crash_points"], "all questions at all moments of all histories",
 "Query handlers have next to no tests, and none with uncommitted changes or earlier heights.",
 ["x/*/keeper/query_server.go", "x/*/keeper/querier.go", "x/bank/internal/keeper/grpc_querier.go", "app/app.go"],
 [("query services", "x/*/keeper query servers and queriers")],
 "answers and the committed state", "any moment")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
