#!/usr/bin/env python3
# Writes MANIFEST.json from the list below.
import json
T="deterministic simulation with fault injection: seeded search over whole-application executions, "
P={
"C01":("replicas compared call by call","Every ABCI answer, every event and every state hash of 2-4 replicas with different local settings, mempool and query traffic and restarts is compared on every block of every run."),
"C02":("simulated disk, crash and restart at every kind of point, state hash and content compared with a replica that never failed","Crash points are sampled, not enumerated; the simulated disk loses unsynced writes as a suffix (no reordering within goleveldb)."),
"C03":("conservation invariant after every call, supply changes explained by a reference model","Checked after every single ABCI call of every run."),
"C04":("one-step refinement against a reference model, resends and failing messages included","Every transaction's whole effect on the state is compared with the model's prediction."),
"C05":("one-step refinement against a reference model, with wrong signers and foreign signatures generated","Every transaction's whole effect on the state is compared with the model's prediction; unauthorised ones are generated for every message type."),
"C06":("one-step refinement of BeginBlock, block times chosen at, just before and long after due times","Every BeginBlock's whole effect is compared with a model that runs the due tasks one by one."),
"C07":("one-step refinement plus a ledger of requests over the whole run","Amounts, shares, requests and payouts are predicted exactly."),
"C08":("one-step refinement of accruals against exact rational arithmetic","Income is predicted exactly, including partial days and bonuses; bounded by 2500 delegator-days per run."),
"C09":("structural invariant on every state plus one-step refinement","Checked on the whole network after every block and operation of every run (up to 90 accounts)."),
"C10":("totals recomputed from scratch on every state","Recomputed independently after every block and operation of every run."),
"C11":("statuses and grace periods predicted by a reference model","Cases where the order of simultaneous checks decides are not judged (see DESIGN.md)."),
"C12":("one-step refinement plus the history of activity","Dates of compression and banishment and their effects are predicted exactly."),
"C13":("one-step refinement","Legality, price, consent, timeout and the moved network are predicted exactly."),
"C14":("every update is applied to Tendermint's real validator set","The real Tendermint code accepts or refuses the updates; the resulting set is compared with the chain's."),
"C15":("selection recomputed from the state by a reference model","Ties and the lottery are predicted from the recorded scores and queue; scores use the platform's floating point."),
"C16":("one-step refinement of BeginBlock with generated votes and evidence","Counters, jail terms, bans and returns are predicted exactly."),
"C17":("one-step refinement in integer arithmetic","Every fee and every split is predicted exactly."),
"C18":("one-step refinement plus the history of votes","All kinds of proposals are made, decided and applied; the effect on parameters is predicted exactly."),
"C19":("one-step refinement plus a ledger of answers","Eligibility, counts, quorum and history are predicted exactly."),
"C20":("one-step refinement with block times around expiry","Periods, prices and activity are predicted exactly."),
"C21":("one-step refinement in integer arithmetic","Prices and limits are predicted exactly."),
"C22":("index invariants on every state plus queries through the application","Every name ever used is looked up after every block."),
"C23":("export, validation, import into new replicas at arbitrary heights and continuation of the run on the new chain","The exported and the imported state are compared field by field, and the run continues on the new chain under all other checks."),
"C24":("well- and ill-formed transactions, time jumps, votes, evidence and faults; every call guarded, bounded progress after faults cease","A hang is a run that makes no progress within 400 s; fault-free tail of every run checks that nodes catch up and transactions commit."),
"C25":("simulated upgrades with old and new binaries, crashes around the halt","The upgrade handler is a small one supplied by the simulator."),
"C26":("one-step refinement in integer arithmetic","Every transfer and burn is predicted exactly."),
"C27":("one-step refinement with block times around expiry","Marks and their use in accruals are predicted exactly."),
"C28":("one-step refinement","Every registration's whole effect on the state is predicted exactly."),
"C29":("about 30 kinds of queries sent between any two calls to nodes in any condition, answers computed from the recorded committed states","Historic answers are judged for the last 12 heights; heights removed by pruning are not asked."),
}
m={"version":1,"setup_cmd":"./setup.sh","checks":[{"property":k,"quick_cmd":"./check.sh %s quick"%k,"thorough_cmd":"./check.sh %s thorough"%k,"evidence_file":"evidence/%s.json"%k,
 "technique":T+v[0],"level":"exploration","level_note":v[1]+" Seeded search, not exhaustive; the oracle is this framework's reference model. Trusted: Go, cosmos-sdk and Tendermint below the seams, the simulated disk."} for k,v in P.items()],
 "not_applicable":[],
 "notes":"No hooks in /repo: the simulator is compiled into the module with a Go build overlay and drives the application through ABCI, the database interface and the block header's time."}
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
