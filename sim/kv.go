package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	rcdb "github.com/sourcenetwork/raccoondb"
)

// Fault is one injected storage fault. It fires at the N-th (from 0) storage
// operation of class Class issued by the request it belongs to.
//
//	Class: get has iter next set del w(set|del) r(get|has|iter|next) any
//	Kind:  err        the operation fails and is not applied
//	       errapplied a write is applied, then reported as failed
//	       nil        an iterator cannot be opened (nil iterator)
//	       full       this and the following Len writes fail (disk full)
//	       cancel     the context of the request is cancelled just before the operation,
//	                  which itself succeeds
//	       crash      the process dies before the operation is applied
//	       crashafter the process dies right after the operation was applied
type Fault struct {
	Class string `json:"class"`
	N     int    `json:"n"`
	Kind  string `json:"kind"`
	Len   int    `json:"len,omitempty"`
}

var errInjected = errors.New("injected storage failure")
var errFull = errors.New("injected storage failure: no space left on device")

func classMatch(class, op string) bool {
	switch class {
	case "any":
		return true
	case "w":
		return op == "set" || op == "del"
	case "r":
		return op == "get" || op == "has" || op == "iter" || op == "next"
	}
	return class == op
}

// backend is what survives a crash.
type backend interface {
	kv() rcdb.KVStore
	// restart returns the backend as a new process finds it after the old one died.
	restart() (backend, error)
	volatile() bool
	close()
	name() string
}

// ---- simulated store -------------------------------------------------------

type simStore struct {
	m    map[string][]byte
	keys []string // sorted
}

func newSimStore() *simStore { return &simStore{m: map[string][]byte{}} }

func (s *simStore) Get(key []byte) ([]byte, error) {
	v, ok := s.m[string(key)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (s *simStore) Has(key []byte) (bool, error) {
	_, ok := s.m[string(key)]
	return ok, nil
}
func (s *simStore) Set(key, value []byte) error {
	k := string(key)
	if _, ok := s.m[k]; !ok {
		i := sort.SearchStrings(s.keys, k)
		// copy on write: open iterators keep their snapshot
		nk := make([]string, 0, len(s.keys)+1)
		nk = append(nk, s.keys[:i]...)
		nk = append(nk, k)
		nk = append(nk, s.keys[i:]...)
		s.keys = nk
	}
	s.m[k] = append([]byte{}, value...)
	return nil
}
func (s *simStore) Delete(key []byte) error {
	k := string(key)
	if _, ok := s.m[k]; ok {
		i := sort.SearchStrings(s.keys, k)
		nk := make([]string, 0, len(s.keys))
		nk = append(nk, s.keys[:i]...)
		nk = append(nk, s.keys[i+1:]...)
		s.keys = nk
		delete(s.m, k)
	}
	return nil
}

type simIter struct {
	keys []string
	vals [][]byte
	i    int
}

func (s *simStore) Iterator(start, end []byte) rcdb.Iterator {
	lo := sort.SearchStrings(s.keys, string(start))
	hi := len(s.keys)
	if end != nil {
		hi = sort.SearchStrings(s.keys, string(end))
	}
	if hi < lo {
		hi = lo
	}
	it := &simIter{keys: s.keys[lo:hi]}
	for _, k := range it.keys {
		it.vals = append(it.vals, s.m[k])
	}
	return it
}
func (i *simIter) Valid() bool { return i.i < len(i.keys) }
func (i *simIter) Next() {
	if !i.Valid() {
		panic("iterator is invalid")
	}
	i.i++
}
func (i *simIter) Key() []byte   { return []byte(i.keys[i.i]) }
func (i *simIter) Value() []byte { return append([]byte{}, i.vals[i.i]...) }
func (i *simIter) Error() error  { return nil }
func (i *simIter) Close() error  { return nil }

type simBackend struct{ s *simStore }

func (b *simBackend) kv() rcdb.KVStore          { return b.s }
func (b *simBackend) restart() (backend, error) { return b, nil }
func (b *simBackend) volatile() bool            { return false }
func (b *simBackend) close()                    {}
func (b *simBackend) name() string              { return "sim" }

// ---- real MemKV ------------------------------------------------------------

// memBackend wraps the repository's own in memory store. Its content is copied
// to a new store at a simulated crash, as if the memory were persistent.
type memBackend struct{ s rcdb.KVStore }

func (b *memBackend) kv() rcdb.KVStore { return b.s }
func (b *memBackend) restart() (backend, error) {
	n := rcdb.NewMemKV()
	it := b.s.Iterator([]byte{0}, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		n.Set(it.Key(), it.Value())
	}
	return &memBackend{n}, nil
}
func (b *memBackend) volatile() bool { return false }
func (b *memBackend) close()         {}
func (b *memBackend) name() string   { return "mem" }

// ---- real LevelDB ----------------------------------------------------------

type levelBackend struct {
	dir string
	s   rcdb.KVStore
}

var scratchRoot string

func newScratch() (string, error) {
	if scratchRoot == "" {
		scratchRoot = os.Getenv("ZSIM_SCRATCH")
	}
	return os.MkdirTemp(scratchRoot, "run")
}

func newLevelBackend() (*levelBackend, error) {
	dir, err := newScratch()
	if err != nil {
		return nil, err
	}
	return openLevel(dir)
}

func openLevel(dir string) (*levelBackend, error) {
	s, err := rcdb.NewLevelDB(dir, "zanzi.db")
	if err != nil {
		return nil, err
	}
	return &levelBackend{dir: dir, s: s}, nil
}

func (b *levelBackend) kv() rcdb.KVStore { return b.s }
func (b *levelBackend) restart() (backend, error) {
	// Every operation that returned is in the files. The database is closed before a new
	// process opens it only because its compaction runs in the background, outside the
	// simulator, and would go on removing files.
	closeTmdb(b.s)
	return openLevel(b.dir)
}
func (b *levelBackend) volatile() bool { return false }
func (b *levelBackend) name() string   { return "leveldb" }
func (b *levelBackend) close() {
	closeTmdb(b.s)
	os.RemoveAll(b.dir)
}

// closeTmdb closes the database inside raccoon's wrapper, which has no Close.
func closeTmdb(kv rcdb.KVStore) {
	v := reflect.ValueOf(kv)
	if v.Kind() != reflect.Ptr {
		return
	}
	f := v.Elem().FieldByName("db")
	if !f.IsValid() {
		return
	}
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	if c, ok := f.Interface().(io.Closer); ok {
		c.Close()
	}
}

func copyDir(src, dst string) error {
	return filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		out := filepath.Join(dst, rel)
		if info.IsDir() {
			return os.MkdirAll(out, 0o755)
		}
		if filepath.Base(p) == "LOCK" {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(out, data, 0o644)
	})
}

// digest returns a hash of the whole content of a store, or "" if the store cannot be listed.
func digest(kv rcdb.KVStore) string {
	h := fnv.New64a()
	it := kv.Iterator([]byte{0}, nil)
	if it == nil {
		return ""
	}
	defer it.Close()
	n := 0
	for ; it.Valid(); it.Next() {
		fmt.Fprintf(h, "%d:%s%d:%s", len(it.Key()), it.Key(), len(it.Value()), it.Value())
		n++
	}
	return fmt.Sprintf("%d/%x", n, h.Sum64())
}

// ---- the seam --------------------------------------------------------------

// handle is the KVStore given to one instance (process incarnation) of zanzi.
type handle struct {
	r    *runner
	s    rcdb.KVStore
	dead bool
	open map[*handleIter]*Event // the iterators that are open, by request
}

// locked reports a write that waits for ever in a store whose writers wait for
// open iterators, because a request that is over has left one open.
func (h *handle) locked(t *task) {
	if !h.r.c.Strict || t == nil || t.ev == nil || h.r.deadlock != "" {
		return
	}
	var first *Event
	for _, ev := range h.open {
		if ev != nil && ev.Ret != 0 && ev != t.ev && (first == nil || ev.Ret < first.Ret) {
			first = ev
		}
	}
	if first != nil {
		h.r.deadlock = fmt.Sprintf("request %s never completes: its write waits for an iterator which request %s has left open", t.ev.Op, first.Op)
		h.r.exitDead(t)
	}
}

// enter is the scheduling point before each storage operation. It returns the
// fault to apply, if any. It does not return if the process is dead.
func (h *handle) enter(op string) (t *task, f *Fault) {
	t = h.r.currentTask()
	if t == nil { // the simulator itself
		if h.dead {
			runtime.Goexit()
		}
		h.r.opMu.Lock()
		return nil, nil
	}
	if h.dead || t.dead || h.r.ended {
		h.r.exitDead(t)
	}
	t.steps++
	h.r.stats.KVOps++
	over := t.steps > h.r.budget
	if t.root != nil && !t.root.done {
		t.root.steps++
		over = over || t.root.steps > h.r.budget
	}
	if over {
		t.overrun = true
		h.r.exitDead(t)
	}
	h.r.yield(t, op)
	h.r.opMu.Lock() // goroutines of one request may be at their operations together
	h.r.tick()      // only the task that was chosen to run moves the clock
	if h.dead || t.dead || h.r.ended {
		h.r.opMu.Unlock()
		h.r.exitDead(t)
	}
	h.r.adopt(t)
	f = h.r.faultFor(t, op)
	if f != nil && f.Kind == "crash" {
		h.r.opMu.Unlock()
		h.crash(t)
	}
	if f != nil && f.Kind == "cancel" {
		if c := t.ev.cancel; c != nil {
			c()
		}
		f = nil
	}
	return t, f
}

func (h *handle) leave(t *task, f *Fault) {
	if f != nil && f.Kind == "crashafter" {
		h.crash(t)
	}
}

func (h *handle) crash(t *task) {
	h.dead = true
	h.r.crashed = true
	for l := range h.r.live {
		l.dead = true
	}
	h.r.exitDead(t)
}

func (h *handle) Get(key []byte) ([]byte, error) {
	t, f := h.enter("get")
	defer h.r.opMu.Unlock()
	if f != nil && f.Kind == "err" {
		return nil, errInjected
	}
	v, err := h.s.Get(key)
	h.leave(t, f)
	return v, err
}

func (h *handle) Has(key []byte) (bool, error) {
	t, f := h.enter("has")
	defer h.r.opMu.Unlock()
	if f != nil && f.Kind == "err" {
		return false, errInjected
	}
	v, err := h.s.Has(key)
	h.leave(t, f)
	return v, err
}

func (h *handle) Set(key, value []byte) error {
	t, f := h.enter("set")
	defer h.r.opMu.Unlock()
	if f != nil && (f.Kind == "err" || f.Kind == "full") {
		if f.Kind == "full" {
			return errFull
		}
		return errInjected
	}
	h.locked(t)
	h.r.noteWrite(t)
	err := h.s.Set(key, value)
	h.leave(t, f)
	if f != nil && f.Kind == "errapplied" {
		return errInjected
	}
	return err
}

func (h *handle) Delete(key []byte) error {
	t, f := h.enter("del")
	defer h.r.opMu.Unlock()
	if f != nil && (f.Kind == "err" || f.Kind == "full") {
		if f.Kind == "full" {
			return errFull
		}
		return errInjected
	}
	h.locked(t)
	h.r.noteWrite(t)
	err := h.s.Delete(key)
	h.leave(t, f)
	if f != nil && f.Kind == "errapplied" {
		return errInjected
	}
	return err
}

func (h *handle) Iterator(start, end []byte) rcdb.Iterator {
	t, f := h.enter("iter")
	defer h.r.opMu.Unlock()
	if f != nil && f.Kind == "nil" {
		return nil
	}
	if f != nil && f.Kind == "err" {
		return &faultIter{err: errInjected}
	}
	it := h.s.Iterator(start, end)
	h.leave(t, f)
	if it == nil {
		return nil
	}
	hi := &handleIter{h: h, it: it}
	if t != nil && t.root == nil && h.r.c.Strict {
		h.r.mu.Lock()
		if h.open == nil {
			h.open = map[*handleIter]*Event{}
		}
		h.open[hi] = t.ev
		h.r.mu.Unlock()
	}
	return hi
}

type faultIter struct{ err error }

func (i *faultIter) Valid() bool   { return false }
func (i *faultIter) Next()         { panic("iterator is invalid") }
func (i *faultIter) Key() []byte   { panic("iterator is invalid") }
func (i *faultIter) Value() []byte { panic("iterator is invalid") }
func (i *faultIter) Error() error  { return i.err }
func (i *faultIter) Close() error  { return nil }

type handleIter struct {
	h   *handle
	it  rcdb.Iterator
	err error
}

func (i *handleIter) Valid() bool {
	if i.err != nil {
		return false
	}
	return i.it.Valid()
}
func (i *handleIter) Next() {
	if !i.Valid() {
		panic("iterator is invalid")
	}
	t, f := i.h.enter("next")
	defer i.h.r.opMu.Unlock()
	if f != nil && f.Kind == "err" {
		i.err = errInjected
		return
	}
	i.it.Next()
	i.h.leave(t, f)
}
func (i *handleIter) Key() []byte {
	if i.err != nil {
		panic("iterator is invalid")
	}
	return i.it.Key()
}
func (i *handleIter) Value() []byte {
	if i.err != nil {
		panic("iterator is invalid")
	}
	return i.it.Value()
}
func (i *handleIter) Error() error {
	if i.err != nil {
		return i.err
	}
	return i.it.Error()
}
func (i *handleIter) Close() error {
	i.h.r.mu.Lock()
	delete(i.h.open, i)
	i.h.r.mu.Unlock()
	return i.it.Close()
}

// ---- goroutine identity ------------------------------------------------------

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	// "goroutine 123 [running]:"
	var id int64
	for _, c := range buf[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// parentGoid returns the goroutine which created the current one, or 0.
func parentGoid() int64 {
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, false)
	s := string(buf[:n])
	i := strings.LastIndex(s, " in goroutine ")
	if i < 0 {
		return 0
	}
	var id int64
	for _, c := range s[i+len(" in goroutine "):] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}
