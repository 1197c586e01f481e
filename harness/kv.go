package main

import (
	"bytes"
	"errors"
	"sort"
	"sync"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
)

var errStorage = errors.New("injected storage failure")

// faultPlan makes the at-th operation counted since arm fail, or stop for good
type faultPlan struct {
	kind  string // "err", "crash", "cancel"
	scope string // "write", "any"
	at    int
	stick bool   // every later operation of the request fails as well
	give  func() // called instead of failing, if kind is "cancel"
}

// ordKV is an ordered in-memory key value store whose iterators read a snapshot
type ordKV struct {
	mu    sync.Mutex
	keys  []string
	vals  map[string][]byte
	plan  *faultPlan
	count int
	fired bool
	stop  chan struct{}   // closed when a crash happens
	gate  func(op string) // called before every operation
	dead  bool
	ops   int
}

func newOrdKV() *ordKV { return &ordKV{vals: map[string][]byte{}} }

func (kv *ordKV) clone() *ordKV {
	kv.mu.Lock()
	defer kv.mu.Unlock()
	c := newOrdKV()
	c.keys = append([]string{}, kv.keys...)
	for k, v := range kv.vals {
		c.vals[k] = v
	}
	return c
}

func (kv *ordKV) arm(p *faultPlan) {
	kv.mu.Lock()
	defer kv.mu.Unlock()
	kv.plan, kv.count, kv.fired = p, 0, false
	kv.stop = make(chan struct{})
}

func (kv *ordKV) armed() bool {
	kv.mu.Lock()
	defer kv.mu.Unlock()
	return kv.plan != nil
}

// settle waits until no operation has happened for a while
func (kv *ordKV) settle() {
	for last, since := -1, time.Now(); time.Since(since) < 40*time.Millisecond; time.Sleep(2 * time.Millisecond) {
		kv.mu.Lock()
		if kv.ops != last {
			last, since = kv.ops, time.Now()
		}
		kv.mu.Unlock()
	}
}

func (kv *ordKV) disarm() bool {
	kv.mu.Lock()
	defer kv.mu.Unlock()
	kv.plan = nil
	return kv.fired
}

// enter is called with the lock held, and returns whether the operation fails
func (kv *ordKV) enter(op string, write bool) error {
	kv.ops++
	if kv.dead {
		kv.mu.Unlock()
		select {} // the process no longer exists
	}
	if kv.plan == nil || (kv.plan.scope == "write" && !write) {
		return nil
	}
	kv.count++
	hit := kv.count == kv.plan.at || (kv.plan.stick && kv.count > kv.plan.at)
	if !hit {
		return nil
	}
	kv.fired = true
	if kv.plan.kind == "cancel" {
		kv.plan.give()
		return nil
	}
	if kv.plan.kind == "crash" {
		kv.dead = true
		close(kv.stop)
		kv.mu.Unlock()
		select {}
	}
	return errStorage
}

func (kv *ordKV) pass(op string) {
	if kv.gate != nil {
		kv.gate(op)
	}
}

func (kv *ordKV) Get(key []byte) ([]byte, error) {
	kv.pass("get")
	kv.mu.Lock()
	err := kv.enter("get", false)
	defer kv.mu.Unlock()
	if err != nil {
		return nil, err
	}
	v, ok := kv.vals[string(key)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}

func (kv *ordKV) Has(key []byte) (bool, error) {
	kv.pass("has")
	kv.mu.Lock()
	err := kv.enter("has", false)
	defer kv.mu.Unlock()
	if err != nil {
		return false, err
	}
	_, ok := kv.vals[string(key)]
	return ok, nil
}

func (kv *ordKV) Set(key, value []byte) error {
	kv.pass("set")
	kv.mu.Lock()
	err := kv.enter("set", true)
	defer kv.mu.Unlock()
	if err != nil {
		return err
	}
	k := string(key)
	if _, ok := kv.vals[k]; !ok {
		i := sort.SearchStrings(kv.keys, k)
		kv.keys = append(kv.keys, "")
		copy(kv.keys[i+1:], kv.keys[i:])
		kv.keys[i] = k
	}
	kv.vals[k] = append([]byte{}, value...)
	return nil
}

func (kv *ordKV) Delete(key []byte) error {
	kv.pass("delete")
	kv.mu.Lock()
	err := kv.enter("delete", true)
	defer kv.mu.Unlock()
	if err != nil {
		return err
	}
	k := string(key)
	if _, ok := kv.vals[k]; ok {
		i := sort.SearchStrings(kv.keys, k)
		kv.keys = append(kv.keys[:i:i], kv.keys[i+1:]...)
		delete(kv.vals, k)
	}
	return nil
}

type ordIter struct {
	kv   *ordKV
	keys [][]byte
	vals [][]byte
	pos  int
	err  error
}

func (kv *ordKV) Iterator(start, end []byte) rcdb.Iterator {
	kv.pass("iter")
	kv.mu.Lock()
	err := kv.enter("iter", false)
	defer kv.mu.Unlock()
	it := &ordIter{kv: kv, err: err}
	if err != nil {
		return it
	}
	for i := sort.SearchStrings(kv.keys, string(start)); i < len(kv.keys); i++ {
		k := []byte(kv.keys[i])
		if end != nil && bytes.Compare(k, end) >= 0 {
			break
		}
		it.keys = append(it.keys, k)
		it.vals = append(it.vals, append([]byte{}, kv.vals[kv.keys[i]]...))
	}
	return it
}

func (it *ordIter) Valid() bool { return it.err == nil && it.pos < len(it.keys) }
func (it *ordIter) Next() {
	if !it.Valid() {
		panic("iterator is not valid")
	}
	it.kv.mu.Lock()
	err := it.kv.enter("next", false)
	it.kv.mu.Unlock()
	if err != nil {
		it.err = err
		return
	}
	it.pos++
}
func (it *ordIter) Key() []byte   { return it.keys[it.pos] }
func (it *ordIter) Value() []byte { return it.vals[it.pos] }
func (it *ordIter) Error() error  { return it.err }
func (it *ordIter) Close() error  { return nil }
