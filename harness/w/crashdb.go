package w

import (
	"errors"
	"sync"

	"github.com/ethereum/go-ethereum/ethdb"
)

// KV is one change of a store (a nil value deletes).
type KV struct{ K, V []byte }

// LogDB is a memory store that remembers every atomic write.
type LogDB struct {
	mu  sync.RWMutex
	m   map[string][]byte
	Log [][]KV
}

// NewLogDB makes a store with the given content.
func NewLogDB(m map[string][]byte) *LogDB {
	d := &LogDB{m: map[string][]byte{}}
	for k, v := range m {
		d.m[k] = v
	}
	return d
}

// Content copies the store and forgets the writes so far.
func (d *LogDB) Content() map[string][]byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := make(map[string][]byte, len(d.m))
	for k, v := range d.m {
		r[k] = v
	}
	d.Log = nil
	return r
}

// Writes is the log so far.
func (d *LogDB) Writes() [][]KV {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([][]KV{}, d.Log...)
}

// After is a store with content m and the first n writes of l.
func After(m map[string][]byte, l [][]KV, n int) *LogDB {
	d := NewLogDB(m)
	for _, w := range l[:n] {
		d.apply(w)
	}
	d.Log = nil
	return d
}

func (d *LogDB) apply(w []KV) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, x := range w {
		if x.V == nil {
			delete(d.m, string(x.K))
		} else {
			d.m[string(x.K)] = x.V
		}
	}
	d.Log = append(d.Log, w)
}

func cp(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

func (d *LogDB) Put(k, v []byte) error { d.apply([]KV{{cp(k), cp(v)}}); return nil }
func (d *LogDB) Delete(k []byte) error { d.apply([]KV{{cp(k), nil}}); return nil }
func (d *LogDB) Get(k []byte) ([]byte, error) {
	d.mu.RLock()
	defer d.mu.RUnlock()
	if v, ok := d.m[string(k)]; ok {
		return cp(v), nil
	}
	return nil, errors.New("not found")
}
func (d *LogDB) Has(k []byte) (bool, error) {
	d.mu.RLock()
	defer d.mu.RUnlock()
	_, ok := d.m[string(k)]
	return ok, nil
}
func (d *LogDB) Close()                {}
func (d *LogDB) NewBatch() ethdb.Batch { return &logBatch{d: d} }

type logBatch struct {
	d    *LogDB
	w    []KV
	size int
}

func (b *logBatch) Put(k, v []byte) error {
	b.w = append(b.w, KV{cp(k), cp(v)})
	b.size += len(v)
	return nil
}
func (b *logBatch) Delete(k []byte) error { b.w = append(b.w, KV{cp(k), nil}); b.size++; return nil }
func (b *logBatch) ValueSize() int        { return b.size }
func (b *logBatch) Write() error {
	if len(b.w) > 0 {
		b.d.apply(append([]KV{}, b.w...))
	}
	return nil
}
func (b *logBatch) Reset() { b.w, b.size = nil, 0 }
