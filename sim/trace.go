package main

import (
	"encoding/json"
	"os"
)

// Evid is one piece of evidence of misbehaviour: the validator at position Pos of the set Age blocks before the last one.
type Evid struct {
	Pos int   `json:"pos"`
	Age int64 `json:"age"`
}

// Fault happens to one replica (0 is never faulted) while a block is executed.
//
//	stop      the process is killed before ABCI call #At of the block (0 BeginBlock, 1.. DeliverTx, then EndBlock, Commit, after Commit)
//	wbefore   the process is killed before the N-th disk write of this block
//	wafter    the process is killed right after the N-th disk write of this block
//	rerr      the N-th disk read of this block fails, the process dies of it
//	full      the disk is full from now on until the operator restarts the node
//	lag       the node does not take part for N blocks and catches up afterwards
//	restart   clean restart before the block
//	check     CheckTx (N: which transaction) between ABCI calls, before call #At
//	recheck   the same as a recheck
//	sim       gas simulation of a transaction, before call #At
//	query     one of the queries (N: which), before call #At
//	fresh     a new operating system process takes over a copy of the disk after this block and executes the next N blocks
//	          (0: executes the chain from genesis)
//
// Lose is the number of not yet synced disk mutations that a kill also destroys (power loss), Down the number of blocks
// until the operator starts the process again.
type Fault struct {
	R    int    `json:"r"`
	Kind string `json:"kind"`
	At   int    `json:"at,omitempty"`
	N    int64  `json:"n,omitempty"`
	Lose int    `json:"lose,omitempty"`
	Down int    `json:"down,omitempty"`
}

func (f Fault) kills() bool {
	switch f.Kind {
	case "stop", "wbefore", "wafter", "rerr", "full":
		return true
	}
	return false
}

// Block is everything that was decided about one block.
type Block struct {
	Dt     int64   `json:"dt"`
	Prop   int     `json:"prop"`
	Miss   []int   `json:"miss,omitempty"`
	Ev     []Evid  `json:"ev,omitempty"`
	Txs    []Tx    `json:"txs,omitempty"`
	F      []Fault `json:"f,omitempty"`
	Export bool    `json:"export,omitempty"` // after this block, export the state and start a new chain from it
	Swap   []int   `json:"swap,omitempty"`   // replicas whose operators install the new binary before this block
}

// Trace is one execution, completely.
type Trace struct {
	Spec   Spec    `json:"spec"`
	Blocks []Block `json:"blocks"`
}

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Seed      int64     `json:"seed"`
	Note      string    `json:"note,omitempty"`
	Trace     Trace     `json:"trace"`
}

func (r *ReplayFile) write(path string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}

// Violation of a property. Sig is stable across the replays of a trace and its reductions.
type Violation struct {
	Props []string `json:"props"`
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
	Block int      `json:"block"`
	Call  string   `json:"call"`
	Hash  string   `json:"state,omitempty"`
}
