"""What each check consists of."""
CHECKS = {}

def mc(spec, **k):
    d = dict(spec=spec, cfg=spec + '.cfg')
    if k.pop('deep', True):
        d['cfg_thorough'] = spec + '_T.cfg'
    d.update(k)
    return d

def chain(spec, quick, thorough, **opt):
    return dict(spec=spec, driver='chain', quick=quick, thorough=thorough, opt=opt)

CHECKS['C06'] = dict(
    title='Scheduled tasks run once, in order, when due',
    mc=[mc('MCSched')],
    traces=[dict(spec='TraceSched', driver='sched', quick=(6, 40, 80), thorough=(32, 100, 150))],
    note='Exhaustive TLC search of the scheduler specification for small bounds; randomly driven histories of the real scheduler '
  '(nested scheduling and cancelling from inside tasks, crashing tasks, restarts, export/import) validated step by step by TLC. '
  'A cancellation issued by a task for another task already due in the same block may come too late; that is allowed.')

BANKW = dict(send=10, burn=3, multi=4, restart=1, reimport=1, check=1, sim=1, lowgas=1)
BANK = 'Exhaustive TLC search of the coin specification for small amounts; recorded histories of the whole real application (all message types, blocks, scheduled tasks, restarts, export/import, random parameters) validated event by event by TLC against the same operators, with exact big-number arithmetic. Histories are sampled, not exhaustive.'
CHECKS['C01'] = dict(title='Conservation of coins', mc=[mc('MCBank')], note=BANK, traces=[
    chain('TraceBank', (4, 6, 200), (24, 10, 300), proj=['bank', 'idx'], w=dict(restart=1, reimport=1, lowgas=1)),
    chain('TraceBank', (3, 6, 200), (16, 10, 300), proj=['bank', 'idx'], cfg='rich', w=dict(delegate=12, revoke=8, xrevoke=6, burn=3, restart=1, lowgas=1))])
CHECKS['C02'] = dict(title='Transfers', mc=[mc('MCBank')], note=BANK, traces=[
    chain('TraceBank', (6, 10, 200), (32, 12, 300), proj=['bank'], only=True, w=dict(BANKW, block=4, delegate=1, revoke=1, propose=2, vote=4, badsig=1))])
CHECKS['C03'] = dict(title='Fee distribution', mc=[mc('MCBank')], note=BANK, traces=[
    chain('TraceBank', (5, 6, 200), (28, 10, 300), proj=['bank', 'idx'], w=dict(send=15, restart=1, reimport=1)),
    chain('TraceBank', (2, 6, 200), (8, 10, 300), proj=['bank', 'idx'], cfg='rich', w=dict(send=15, on=8, off=4))])

DELEGP = ['bank', 'del', 'nod', 'prof', 'earn', 'ref', 'tasks']
DELEGW = dict(delegate=20, revoke=10, xrevoke=10, restart=1, reimport=1)
HIST = ' Histories are sampled (weighted random messages, block times aimed at due tasks, random configurations, restarts, exports and imports), not exhaustive.'
CHECKS['C25'] = dict(title='Earners', mc=[mc('MCEarn')], note='Exhaustive TLC search of the earner specification for two accounts and small times; recorded histories of the real application validated by TLC event by event: recorded times, activity, and the answers of all queries.' + HIST, traces=[
    chain('TraceEarn', (4, 8, 220), (24, 12, 300), proj=['earn'], w=dict(earn=40, block=20, multi=3, restart=1, reimport=2, check=1, sim=1)),
    chain('TraceEarn', (2, 6, 220), (8, 10, 300), proj=['earn'], cfg='rich', w=dict(earn=20, delegate=15, revoke=6, on=6, restart=1, reimport=1))])

VOTEW = dict(propose=30, vote=60, poll=6, answer=20, block=15, reimport=1, restart=1, multi=6)
VOTEN = 'Exhaustive TLC search of the voting specification (all histories of few members); recorded histories of the real application, with all kinds of proposals, validated by TLC event by event: who proposed and voted, what was decided when, which parameters, staff, government and amnesties changed, the history, the scheduled end.' + HIST
POLLN = 'Exhaustive TLC search of the poll specification (all histories of few accounts); recorded histories of the real application validated by TLC event by event: who answered, entitlement, counts, outcome, history, the scheduled end.' + HIST
CHECKS['C16'] = dict(title='Proposals', mc=[mc('MCVote')], note=VOTEN, traces=[
    chain('TraceVote', (5, 8, 250), (24, 12, 300), proj=['vot', 'nod', 'tasks'], w=VOTEW),
    chain('TraceVote', (2, 8, 250), (8, 12, 300), proj=['vot', 'nod', 'tasks'], cfg='rich', w=VOTEW)])
CHECKS['C17'] = dict(title='Polls', mc=[dict(spec='MCVote', cfg='MCPoll.cfg', cfg_thorough='MCPoll_T.cfg')], note=POLLN, traces=[
    chain('TraceVote', (4, 8, 250), (20, 12, 300), proj=['vot', 'nod', 'tasks'], w=dict(VOTEW, propose=8, vote=16, poll=20, answer=80)),
    chain('TraceVote', (3, 8, 250), (12, 12, 300), proj=['vot', 'nod', 'tasks'], cfg='rich', w=dict(VOTEW, propose=8, vote=16, poll=20, answer=80, on=8, delegate=8))])

DELN = 'Exhaustive TLC search of the delegation specification (all histories of delegating, revoking, paying back and accruing for few accounts and short times, including late tasks); recorded histories of the real application validated by TLC event by event with exact amounts, rates, bonuses, times and pending revocations.' + HIST
for id, title in ('C04', 'Delegating and revoking'), ('C05', 'Interest'):
    CHECKS[id] = dict(title=title, mc=[mc('MCDeleg')], note=DELN, traces=[
        chain('TraceDeleg', (4, 5, 200), (20, 10, 300), proj=DELEGP, w=DELEGW),
        chain('TraceDeleg', (3, 5, 200), (12, 10, 300), proj=DELEGP, cfg='top', w=dict(DELEGW, on=30, earn=12)),
        chain('TraceDeleg', (2, 4, 200), (10, 8, 300), proj=DELEGP, cfg='deep', w=dict(DELEGW, on=60, earn=12))])

REFP = ['bank', 'ref', 'refix', 'prof', 'tasks']
REFW = dict(treq=12, tres=16, create=8, tariff=8, delegate=8, restart=1, reimport=1)
MOVEW = dict(block=20, treq=30, tres=40, create=3, tariff=5, delegate=8, revoke=3)
REFN = 'Exhaustive TLC search of the referral specification (all histories of registering, paying, lapsing, compression, banishment, return and moves for few accounts); recorded histories of the real application validated by TLC event by event.' + HIST
for id, title, extra in (('C07', 'Team aggregates', []), ('C08', 'The referral forest', []), ('C09', 'Statuses', [dict(spec='TraceStatus', driver='status', quick=(4, 2, 1500), thorough=(24, 5, 3000))]), ('C10', 'Compression, banishment, return', []), ('C11', 'Moves', [])):
    CHECKS[id] = dict(title=title, note=REFN, mc=[mc('MCRefer'), dict(spec='MCRefer', cfg='MCMove.cfg')], traces=[
        chain('TraceRefer', (3, 5, 200), (12, 10, 300), proj=REFP, w=REFW),
        chain('TraceRefer', (2, 5, 200), (8, 10, 300), proj=REFP, cfg='ref', w=REFW),
        chain('TraceRefer', (2, 5, 200), (10, 10, 300), proj=REFP, cfg='top', w=REFW),
        chain('TraceRefer', (2, 4, 180), (10, 8, 300), proj=REFP, cfg='deep', w=REFW),
        chain('TraceRefer', (3, 5, 200), (12, 10, 300), proj=REFP, cfg='move', only=True, dts=[1, 1, 10, 50, 100], w=MOVEW)] + extra)

NODP = ['nod', 'ref', 'bank']
NODPROPS = ['MAX_VALIDATORS', 'LUCKY_VALIDATORS', 'GENERAL_AMNESTY', 'VALIDATOR_MINIMAL_CRITERIA', 'JAIL_AFTER', 'VOTING_POWER'] + 2 * ['STAFF_VALIDATOR_ADD', 'STAFF_VALIDATOR_REMOVE', 'STAFF_VALIDATOR_REMOVE']
NODW = dict(on=30, off=6, swap=6, unjail=14, block=40, restart=1, reimport=1, delegate=10, revoke=10, propose=14, vote=50)
NODN = 'Exhaustive TLC search of the validator specification (all histories of joining, leaving, missing, evidence, release, ranking and qualification changes, export and import for three accounts and two keys: the incremental updates always add up to the set that is meant); recorded histories of the real application, with votes and evidence as the engine would report them, validated by TLC event by event.' + HIST
for id, title in (('C12', 'Jail, release and ban'), ('C13', 'The validator set of the engine'), ('C14', 'One validator per key'), ('C15', 'Qualification and lottery')):
    CHECKS[id] = dict(title=title, note=NODN, mc=[dict(spec='MCNod', cfg='MCNodE.cfg', cfg_thorough='MCNodE_T.cfg') if id == 'C12' else mc('MCNod')], traces=[
        chain('TraceNod', (6, 5, 250), (28, 10, 350), proj=NODP, cfg='nod', evrate=25, props=NODPROPS, w=NODW),
        chain('TraceNod', (2, 4, 200), (8, 10, 300), proj=NODP, cfg='top', w=dict(on=30, off=6, unjail=10, block=30, restart=1, reimport=1))])

PROFP = ['bank', 'prof', 'ref', 'tasks']
PROFW = dict(upd=20, create=6, tariff=16, buysto=10, givesto=8, buyvpn=8, buyim=10, giveim=8, prolongim=6, stocur=6, vpncur=10, restart=1, reimport=1, send=3, poor=10)
PROFN = 'recorded histories of the real application validated by TLC event by event with exact amounts, limits, times, scheduled renewals, lookups.' + HIST
CHECKS['C18'] = dict(title='Nicknames and card numbers', mc=[mc('MCNames')], note='Exhaustive TLC search of the nickname index under all renamings and registrations of few accounts; ' + PROFN, traces=[
    chain('TraceProf', (5, 6, 220), (24, 12, 300), proj=PROFP, w=dict(PROFW, upd=60, create=20, poor=1)),
    chain('TraceProf', (3, 6, 220), (12, 12, 300), proj=PROFP, cfg='rich', w=dict(PROFW, upd=40, reimport=3))])
for id, title in (('C19', 'Subscription and activity'), ('C20', 'Storage, traffic, messenger space')):
    CHECKS[id] = dict(title=title, mc=[mc('MCProf')], note='Exhaustive TLC search of all histories of one subscriber with little money (payments, automatic renewal, volumes, usage, late blocks); ' + PROFN, traces=[
        chain('TraceProf', (5, 6, 220), (24, 12, 300), proj=PROFP, w=PROFW),
        chain('TraceProf', (3, 6, 220), (12, 12, 300), proj=PROFP, cfg='rich', w=dict(PROFW, upd=12, create=2))])

AUTHPROPS = [x + y for x in ('FREE_CREATOR_', 'TOKEN_RATE_SIGNER_', 'VPN_SIGNER_', 'STORAGE_SIGNER_', 'EARNING_SIGNER_', 'BLOCKED_SENDER_', 'GOVERNMENT_', 'STAFF_VALIDATOR_') for y in ('ADD', 'REMOVE')]
AUTHW = dict(block=12, propose=15, vote=130, rate=14, stocur=14, vpncur=14, earn=14, create=10, treq=10, tres=14, badsig=10, poll=3, multi=4, restart=1, reimport=1)
CHECKS['C21'] = dict(title='Entitlement', mc=[mc('MCAuth')], note='Exhaustive TLC search of rights that change only by votes, for few accounts; recorded histories of the real application validated by TLC event by event: nobody without the right gets a privileged message through, nobody with it is refused for lack of it, and the lists change only by votes that passed.' + HIST, traces=[
    chain('TraceAuth', (6, 6, 250), (24, 12, 300), proj=['bank', 'prof', 'ref', 'vot', 'nod', 'earn'], props=AUTHPROPS, w=AUTHW),
    chain('TraceAuth', (2, 6, 250), (8, 12, 300), proj=['bank', 'prof', 'ref', 'vot', 'nod', 'earn'], cfg='move', props=AUTHPROPS, w=dict(AUTHW, treq=30, tres=40))])

NODEN = 'Exhaustive TLC search of replicas of a node (restart between, within and after blocks, speculative checking and simulation, export and import) and of transactions that fail in the middle; '
REPW = dict(restart=2, reimport=1, check=2, sim=2, lowgas=2, multi=4, vote=15, answer=8, on=8, unjail=4, tres=6, treq=6)
ATOMW = dict(restart=1, lowgas=14, multi=25, check=4, sim=4, badsig=6, send=5)
CHECKS['C23'] = dict(title='Replicas agree', mc=[mc('MCNode')], note=NODEN + 'the real application driven together with two replicas - one never disturbed, one restarted at arbitrary points, in another time zone, with another wall clock, with checks and simulations in between - TLC validates that answers, state digests per store, commit hashes and what a reopened node finds agree at every height, and that exports, imports and their validator updates agree.' + HIST, traces=[
    chain('TraceNode', (4, 8, 180), (12, 8, 250), rep=True, proj=['auth'], w=REPW),
    chain('TraceNode', (2, 8, 180), (8, 8, 250), rep=True, proj=['auth'], cfg='nod', evrate=10, w=dict(REPW, on=30, off=6, unjail=10, block=30)),
    chain('TraceNode', (2, 8, 180), (8, 8, 250), rep=True, proj=['auth'], cfg='top', w=dict(REPW, on=20, earn=6)),
    chain('TraceNode', (2, 8, 180), (6, 8, 250), rep=True, proj=['auth'], cfg='rich', w=dict(REPW, upd=12, tariff=10, buyvpn=6, buyim=6, delegate=15))])
CHECKS['C24'] = dict(title='Transactions are atomic', mc=[mc('MCNode')], note=NODEN + 'recorded histories of the real application in which every message type, alone and in sequences, is refused, runs out of gas, is only checked or simulated; TLC validates which stores differ from before.' + HIST, traces=[
    chain('TraceNode', (4, 8, 220), (14, 8, 300), proj=['stores', 'bank', 'auth'], w=ATOMW),
    chain('TraceNode', (2, 8, 220), (6, 8, 300), proj=['stores', 'bank', 'auth'], cfg='nod', w=dict(ATOMW, on=12, off=6, unjail=8)),
    chain('TraceNode', (2, 8, 220), (6, 8, 300), proj=['stores', 'bank', 'auth'], cfg='top', w=dict(ATOMW, on=12, delegate=8)),
    chain('TraceNode', (2, 8, 220), (8, 8, 300), proj=['stores', 'bank', 'auth'], cfg='rich', w=dict(ATOMW, tariff=10, buyvpn=6, buyim=6, prolongim=4, upd=8))])

GENP = ['stores', 'exp', 'bank', 'ref', 'refix', 'del', 'nod', 'prof', 'earn', 'vot', 'tasks', 'auth']
GENW = dict(restart=1, reimport=25, vote=20, poll=6, answer=20, treq=10, on=10, unjail=5, propose=10, earn=10, upd=10, create=8)
CHECKS['C22'] = dict(title='Export and import', mc=[mc('MCGen')], note='Exhaustive TLC search of lives of few accounts exported and imported at every moment; recorded histories of the real application exported and imported into a new one at many block boundaries (long idle times included); TLC validates that balances, structure, tasks, subscriptions, validators, votes, parameters and signing data are the same afterwards, that exporting again yields the same, and what starts afresh.' + HIST, traces=[
    chain('TraceGen', (2, 4, 160), (10, 8, 250), proj=GENP, evrate=10, w=GENW),
    chain('TraceGen', (2, 3, 160), (8, 6, 250), proj=GENP, evrate=10, cfg='nod', w=GENW),
    chain('TraceGen', (2, 4, 160), (8, 8, 250), proj=GENP, evrate=10, cfg='rich', w=GENW),
    chain('TraceGen', (1, 4, 160), (6, 8, 250), proj=GENP, evrate=10, cfg='ref', w=GENW),
    chain('TraceGen', (2, 3, 160), (8, 6, 250), proj=GENP, evrate=10, cfg='top', w=GENW),
    chain('TraceGen', (1, 3, 160), (6, 6, 250), proj=GENP, evrate=10, cfg='move', w=GENW)])

QUERYP = ['bank', 'ref', 'del', 'nod', 'prof', 'earn', 'vot', 'tasks', 'stores']
QUERYW = dict(ask=60, block=40, restart=2, reimport=1, delegate=12, revoke=8, propose=6, vote=12, upd=12, check=3)
CHECKS['C26'] = dict(title='Queries report the committed state', mc=[mc('MCQuery')], note='Exhaustive TLC search of a node that builds, checks, commits and loses blocks and is asked in between (answers are of a committed version; pages, windows and depths fit together); the real application driven with questions to all query services (and the older custom interface) in the middle of blocks, after restarts and about earlier heights; TLC validates every answer against the function of the committed state the specification defines, and that asking changes nothing.' + HIST, traces=[
    chain('TraceQuery', (3, 3, 220), (12, 6, 300), real=True, proj=QUERYP, cfg='rich', w=QUERYW),
    chain('TraceQuery', (3, 3, 220), (12, 6, 300), real=True, proj=QUERYP, cfg='nod', evrate=10, w=dict(QUERYW, on=20, off=4, unjail=6)),
    chain('TraceQuery', (2, 3, 220), (10, 6, 300), real=True, proj=QUERYP, cfg='top', w=dict(QUERYW, on=12, earn=8)),
    chain('TraceQuery', (1, 3, 220), (6, 6, 300), real=True, proj=QUERYP, cfg='move', w=dict(QUERYW, treq=12, tres=12)),
    chain('TraceQuery', (2, 3, 220), (8, 6, 300), real=True, proj=QUERYP, w=dict(QUERYW, propose=20, vote=50, poll=8, answer=20, earn=12))])

NOT_APPLICABLE = {}
