package main

import (
	"bytes"
	"runtime"
	"sort"

	dbm "github.com/tendermint/tm-db"
)

// SimDB is the simulated disk of one node: a tm-db database whose contents live in memory, with
//   - an undo log of every mutation that is not yet known to be on the platter, so that a power loss can drop any suffix,
//   - a countdown that stops the process at an exact foreground operation (crash point, read or write error),
//   - a "disk full" flag that makes every write fail.
//
// A batch is one mutation (the real back end, goleveldb, makes batches atomic); single Set/Delete are one each.
type SimDB struct {
	mem  *dbm.MemDB
	undo [][]undoRec

	wops       int64 // write operations so far
	killAtW    int64 // stop before this write operation takes effect (0 = off)
	killAfterW int64 // stop right after this write operation took effect (0 = off)
	failAtR    int64 // read error at the read operation that many from now (0 = off)
	full       bool
	keepUndo   bool
	dead       bool // the process using it was stopped: nothing may touch the disk any more
}

type undoRec struct {
	key, val []byte
	had      bool
}

type simCrash struct{ why string }

func newSimDB() *SimDB { return &SimDB{mem: dbm.NewMemDB(), keepUndo: true} }

func (d *SimDB) crash(why string) {
	d.dead = true
	panic(simCrash{why})
}

// Only reads of the simulator's own goroutine count and fail: the SDK's iterators read ahead in goroutines of theirs,
// where a panic would be the simulator's end, too.
func (d *SimDB) onRead() {
	if d.dead {
		if goid() == simGoid {
			panic(simCrash{"dead"})
		}
		return
	}
	if d.failAtR != 0 && goid() == simGoid {
		if d.failAtR--; d.failAtR == 0 {
			d.crash("read-error")
		}
	}
}

var simGoid = goid()

func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	return string(bytes.Fields(b[:n])[1])
}

func (d *SimDB) mutate(f func() []undoRec) {
	if d.dead {
		panic(simCrash{"dead"})
	}
	d.wops++
	if d.full {
		d.crash("disk-full")
	}
	if d.killAtW != 0 && d.wops == d.killAtW {
		d.killAtW = 0
		d.crash("crash-before-write")
	}
	u := f()
	if d.keepUndo {
		d.undo = append(d.undo, u)
	}
	if d.killAfterW != 0 && d.wops == d.killAfterW {
		d.killAfterW = 0
		d.crash("crash-after-write")
	}
}

func (d *SimDB) undoFor(key []byte) undoRec {
	v, err := d.mem.Get(key)
	if err != nil {
		panic(err)
	}
	return undoRec{key: append([]byte{}, key...), val: v, had: v != nil}
}

// Synced: everything written so far is on the platter.
func (d *SimDB) Synced() { d.undo = nil }

// Unsynced is the number of mutations a power loss may drop.
func (d *SimDB) Unsynced() int { return len(d.undo) }

// PowerLoss drops the last n unsynced mutations.
func (d *SimDB) PowerLoss(n int) {
	for ; n > 0 && len(d.undo) > 0; n-- {
		u := d.undo[len(d.undo)-1]
		d.undo = d.undo[:len(d.undo)-1]
		for i := len(u) - 1; i >= 0; i-- {
			if u[i].had {
				_ = d.mem.Set(u[i].key, u[i].val)
			} else {
				_ = d.mem.Delete(u[i].key)
			}
		}
	}
}

// Revive makes the disk usable for a newly started process.
func (d *SimDB) Revive() {
	d.dead = false
	d.killAtW, d.killAfterW, d.failAtR = 0, 0, 0
}

func (d *SimDB) Get(k []byte) ([]byte, error) { d.onRead(); return d.mem.Get(k) }
func (d *SimDB) Has(k []byte) (bool, error)   { d.onRead(); return d.mem.Has(k) }
func (d *SimDB) Set(k, v []byte) error {
	d.mutate(func() []undoRec { u := d.undoFor(k); _ = d.mem.Set(k, v); return []undoRec{u} })
	return nil
}
func (d *SimDB) SetSync(k, v []byte) error { err := d.Set(k, v); d.Synced(); return err }
func (d *SimDB) Delete(k []byte) error {
	d.mutate(func() []undoRec { u := d.undoFor(k); _ = d.mem.Delete(k); return []undoRec{u} })
	return nil
}
func (d *SimDB) DeleteSync(k []byte) error { err := d.Delete(k); d.Synced(); return err }

// Iterators materialise their range, so that no reader lock is held while the caller writes.
func (d *SimDB) Iterator(s, e []byte) (dbm.Iterator, error)        { return d.iter(s, e, false) }
func (d *SimDB) ReverseIterator(s, e []byte) (dbm.Iterator, error) { return d.iter(s, e, true) }
func (d *SimDB) iter(s, e []byte, rev bool) (dbm.Iterator, error) {
	// no fault here: the SDK opens iterators from helper goroutines as well
	it, err := d.mem.Iterator(s, e)
	if err != nil {
		return nil, err
	}
	r := &simIter{s: s, e: e}
	for ; it.Valid(); it.Next() {
		r.k = append(r.k, it.Key())
		r.v = append(r.v, it.Value())
	}
	it.Close()
	if rev {
		for i, j := 0, len(r.k)-1; i < j; i, j = i+1, j-1 {
			r.k[i], r.k[j] = r.k[j], r.k[i]
			r.v[i], r.v[j] = r.v[j], r.v[i]
		}
	}
	return r, nil
}
func (d *SimDB) Close() error             { return nil }
func (d *SimDB) NewBatch() dbm.Batch      { return &simBatch{db: d} }
func (d *SimDB) Print() error             { return nil }
func (d *SimDB) Stats() map[string]string { return nil }

// Dump is used by the determinism self-test.
func (d *SimDB) Dump() map[string]string {
	it, _ := d.mem.Iterator(nil, nil)
	m := map[string]string{}
	for ; it.Valid(); it.Next() {
		m[string(it.Key())] = string(it.Value())
	}
	it.Close()
	return m
}

type simIter struct {
	s, e []byte
	k, v [][]byte
	i    int
}

func (r *simIter) Domain() ([]byte, []byte) { return r.s, r.e }
func (r *simIter) Valid() bool              { return r.i < len(r.k) }
func (r *simIter) Next() {
	if !r.Valid() {
		panic("iterator is invalid")
	}
	r.i++
}
func (r *simIter) Key() []byte   { return r.k[r.i] }
func (r *simIter) Value() []byte { return r.v[r.i] }
func (r *simIter) Error() error  { return nil }
func (r *simIter) Close() error  { return nil }

type simBatch struct {
	db     *SimDB
	ops    []undoRec // had = set
	closed bool
}

func (b *simBatch) Set(k, v []byte) error {
	b.ops = append(b.ops, undoRec{append([]byte{}, k...), append([]byte{}, v...), true})
	return nil
}
func (b *simBatch) Delete(k []byte) error {
	b.ops = append(b.ops, undoRec{append([]byte{}, k...), nil, false})
	return nil
}
func (b *simBatch) Write() error {
	b.db.mutate(func() []undoRec {
		u := make([]undoRec, 0, len(b.ops))
		for _, o := range b.ops {
			if b.db.keepUndo {
				u = append(u, b.db.undoFor(o.key))
			}
			if o.had {
				_ = b.db.mem.Set(o.key, o.val)
			} else {
				_ = b.db.mem.Delete(o.key)
			}
		}
		return u
	})
	b.ops = nil
	return nil
}
func (b *simBatch) WriteSync() error { err := b.Write(); b.db.Synced(); return err }
func (b *simBatch) Close() error     { b.closed = true; return nil }

func sortedKeys(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ dbm.DB = (*SimDB)(nil)
