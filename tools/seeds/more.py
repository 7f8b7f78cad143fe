S += [
dict(id='chunkchan-tick-reuse', property='C02', pkg='chans',
 needs='a chunk flushed by the timer while the consumer is slow, then further items before the consumer reads it',
 breaks='the array of a chunk already sent is reused, so the delivered chunk changes under the consumer',
 edits=[('chans/chunk_chan.go', '''				case c.outgoingChan <- chunk:
				}
				chunk = make([]T, 0, c.chunkSize)
			}
		case item''', '''				case c.outgoingChan <- chunk:
				}
				chunk = chunk[:0]
			}
		case item''')],
 demo='''
package chans

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := NewChunkChan[int]().WithContext(ctx).WithChunkSize(8).WithChunkTimeout(20 * time.Millisecond).Build()
	c.Add(1)
	c.Add(2)
	for _, out := c.Sizes(); out < 1; _, out = c.Sizes() {
		time.Sleep(time.Millisecond)
	}
	c.Add(3)
	c.Add(4)
	time.Sleep(200 * time.Millisecond)
	first := <-c.C()
	if len(first) == 0 || first[0] != 1 {
		t.Fatalf("first chunk is %v", first)
	}
}
'''),
dict(id='shardchunk-chunker-ctx', property='C05', pkg='chans',
 needs='cancelling the context of a ShardChunk and looking for goroutines that go on',
 breaks='the chunkers run on the background context and never stop',
 edits=[('chans/shard_chunk_chan.go', 'NewChunkChan[T]().WithContext(b.ctx).WithChunkSize', 'NewChunkChan[T]().WithChunkSize')],
 demo='''
package chans

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	if _, err := NewShardChunk[int]().WithContext(ctx).WithShardCount(8).WithShardFunc(func(i int) int { return i }).Build(); err != nil {
		t.Fatal(err)
	}
	cancel()
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= before {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatalf("%d goroutines before, %d after the context was cancelled", before, runtime.NumGoroutine())
}
'''),
dict(id='runner-ctx-spawn', property='W01', pkg='workers',
 needs='more context tasks in flight than workers',
 breaks='tasks taking the context run outside the pool, so more tasks run at once than there are workers',
 edits=[('workers/runner.go', '''					fn(r.ctx)
''', '''					go fn(r.ctx)
''')],
 demo='''
package workers

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r := NewRunner().WithContext(ctx).WithWorkerCount(1).Build()
	var running, most int32
	done := make(chan struct{}, 4)
	for i := 0; i < 4; i++ {
		r.RunWithContext(func(context.Context) {
			if n := atomic.AddInt32(&running, 1); n > atomic.LoadInt32(&most) {
				atomic.StoreInt32(&most, n)
			}
			time.Sleep(50 * time.Millisecond)
			atomic.AddInt32(&running, -1)
			done <- struct{}{}
		})
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	if most > 1 {
		t.Fatalf("%d tasks ran at once on one worker", most)
	}
}
'''),
dict(id='rwmutex-rlock-recheck', property='L01', pkg='collections',
 needs='two goroutines read-locking the same fresh key at the same time',
 breaks='the second creates another mutex for the key, so the first one holds a lock nobody can see or release',
 edits=[('collections/lock_map.go', '''		mm.mu.Lock()
		m, ok = mm.m[k]
		if !ok {
			m = &sync.RWMutex{}
			mm.m[k] = m
		}
		mm.mu.Unlock()
	}
	m.RLock()
''', '''		m = &sync.RWMutex{}
		mm.mu.Lock()
		mm.m[k] = m
		mm.mu.Unlock()
	}
	m.RLock()
''')],
 demo='''
package collections

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		m := NewMapRWMutex[int]()
		var mu sync.Mutex
		seen := map[*sync.RWMutex]bool{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m.RLock(1)
				m.mu.RLock()
				l := m.m[1]
				m.mu.RUnlock()
				mu.Lock()
				seen[l] = true
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		if len(seen) != 1 {
			t.Fatalf("round %d: the key had %d mutexes", round, len(seen))
		}
	}
}
'''),
dict(id='requestmap-err-never-expires', property='R03', pkg='collections',
 needs='a function that fails, and a call for the same key after the lifetime',
 breaks='failed results are never queued for expiry, so the error is returned for ever',
 edits=[('collections/request_map.go', '''				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
		}()
	}
	res := <-ch
	return res.result, res.err''', '''				if r.err != nil {
					return
				}
				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
		}()
	}
	res := <-ch
	return res.result, res.err''')],
 demo='''
package collections

import (
	"context"
	"errors"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m := NewRequestMap[int, int](ctx, 50*time.Millisecond)
	calls := 0
	f := func(int) (int, error) {
		calls++
		if calls == 1 {
			return 0, errors.New("first call fails")
		}
		return 7, nil
	}
	m.GetOrCreateWithErr(1, f)
	time.Sleep(time.Second)
	if v, err := m.GetOrCreateWithErr(1, f); err != nil || v != 7 {
		t.Fatalf("after the lifetime: %v %v", v, err)
	}
}
'''),
dict(id='responsemap-clear-young', property='P03', pkg='collections',
 needs='an entry set early between two runs of the periodic clear and read again before its clear timeout',
 breaks='entries of half the clear timeout are taken for expired',
 edits=[('collections/response_map.go', 'if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {', 'if time.Now().Add(r.clearTimeout / 2).After(holder.createdAt.Add(r.clearTimeout)) {')],
 demo='''
package collections

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m := NewResponseMap[int, int](ctx).WithClearTimeout(2 * time.Second).WithResponseTimeout(time.Second).Build()
	time.Sleep(500 * time.Millisecond)
	m.Set(1, 5)
	time.Sleep(1700 * time.Millisecond)
	if v := m.Wait(1); v != 5 {
		t.Fatal(v)
	}
}
'''),
dict(id='waitmap-cancel-leftover', property='V01', pkg='collections',
 needs='a second Wait for a key after the context was cancelled while the first one waited',
 breaks='the list of served waiters stays behind, so the later waiter is never served',
 edits=[('collections/wait_map.go', '''						close(ch)
					}
					delete(wm.waiterChannels, key)
				}
				wm.mu.Unlock()
			case''', '''						close(ch)
					}
					wm.waiterChannels[key] = nil
				}
				wm.mu.Unlock()
			case''')],
 demo='''
package collections

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	m := NewWaitMap[int, int]().WithContext(ctx).Build()
	served := make(chan int, 2)
	go func() { served <- m.Wait(1) }()
	time.Sleep(50 * time.Millisecond)
	cancel()
	<-served
	go func() { served <- m.Wait(1) }()
	select {
	case <-served:
	case <-time.After(3 * time.Second):
		t.Fatal("the second waiter is never served")
	}
}
'''),
dict(id='aes-nonce-partial', property='A01', pkg='crypto',
 needs='comparing the nonces of several encryptions',
 breaks='a third of the nonce is never randomised',
 edits=[('crypto/aes.go', '''	_, err = rand.Read(nonce)
''', '''	_, err = rand.Read(nonce[4:])
''')],
 demo='''
package crypto

import "testing"

func TestDemo(t *testing.T) {
	a := NewAES(make([]byte, 32))
	for i := 0; i < 64; i++ {
		c, err := a.Encrypt([]byte("x"))
		if err != nil {
			t.Fatal(err)
		}
		if c[0]|c[1]|c[2]|c[3] != 0 {
			return
		}
	}
	t.Fatal("the first bytes of every nonce are zero")
}
'''),
dict(id='cryptofs-readdir-file', property='F02', pkg='crypto_fs',
 needs='ReadDir on the name of a stored file rather than a directory',
 breaks='it returns an empty listing instead of an error',
 edits=[('crypto_fs/crypto_fs.go', '''	if !f.IsDir() {
		return nil, errors.New("not a directory")
	}
	entries''', '''	if !f.IsDir() && len(f.Data) == 0 {
		return nil, errors.New("not a directory")
	}
	entries''')],
 demo='''
package crypto_fs

import "testing"

func TestDemo(t *testing.T) {
	c := &cryptoFS{files: map[string]file{"a": {FileName: "a", Path: "a", Data: []byte("x")}}}
	if _, err := c.ReadDir("a"); err == nil {
		t.Fatal("ReadDir lists a file without an error")
	}
}
'''),
dict(id='gunzip-truncated', property='Z01', pkg='zip',
 needs='compressed data that was cut off in the middle',
 breaks='the part that could be read is returned without an error',
 edits=[('zip/gzip.go', '''	_, err = resB.ReadFrom(r)
	if err != nil {
''', '''	_, err = resB.ReadFrom(r)
	if err == io.ErrUnexpectedEOF && resB.Len() > 0 {
		err = nil
	}
	if err != nil {
''')],
 demo='''
package zip

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("some text "), 1000)
	z, err := GZipData(data)
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < len(z); n++ {
		if got, err := GUnzipData(z[:n]); err == nil && !bytes.Equal(got, data) {
			t.Fatalf("%d of %d bytes unzip to %d bytes without an error", n, len(z), len(got))
		}
	}
}
'''),
dict(id='readn-single-read', property='N01', pkg='net',
 needs='data arriving in more than one piece',
 breaks='a packet that comes in pieces is rejected although all its bytes arrive',
 edits=[('net/read.go', '''	defer conn.SetReadDeadline(time.Time{})
	buff := make([]byte, n)
	nRead, err := io.ReadFull(conn, buff)
''', '''	defer conn.SetReadDeadline(time.Time{})
	buff := make([]byte, n)
	nRead, err := conn.Read(buff)
''')],
 demo='''
package net

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		a.Write([]byte("abc"))
		a.Write([]byte("def"))
	}()
	got, err := ReadNBytesWithTimeout(b, 6, 5*time.Second)
	if err != nil || string(got) != "abcdef" {
		t.Fatalf("%q %v", got, err)
	}
}
'''),
dict(id='compare-truncated-id', property='K01', pkg='comparer',
 needs='two elements whose identifiers agree in the lower 32 bits only',
 breaks='a created element is taken for an existing one',
 edits=[('comparer/comparer.go', '''	currentMap := make(map[uint64]struct{})
''', '''	currentMap := make(map[uint32]struct{}, len(current))
'''), ('comparer/comparer.go', 'currentMap[elem.GetId()] = struct{}{}', 'currentMap[uint32(elem.GetId())] = struct{}{}'),
  ('comparer/comparer.go', 'if _, ok := currentMap[elem.GetId()]; !ok {', 'if _, ok := currentMap[uint32(elem.GetId())]; !ok {')],
 demo='''
package comparer

import "testing"

type demoElem uint64

func (e demoElem) GetId() uint64 { return uint64(e) }

func TestDemo(t *testing.T) {
	_, created, _ := CompareSlice([]demoElem{7}, []demoElem{7 + 1<<32})
	if len(created) != 1 {
		t.Fatalf("created: %v", created)
	}
}
'''),
dict(id='processor-shared-err', property='E01', pkg='flow',
 needs='two goroutines processing events through the same processor at once',
 breaks='one call can return the error of the other, or lose its own',
 edits=[('flow/processor.go', '''	return func(event E, state S) error {
		for _, route := range routes {
			for _, fn := range route.chain {
				if err := fn(event, state); err != nil {
					return err
				}
			}
		}
		return nil
	}''', '''	var err error
	return func(event E, state S) error {
		for _, route := range routes {
			for _, fn := range route.chain {
				if err = fn(event, state); err != nil {
					return err
				}
			}
		}
		return nil
	}''')],
 flags='-race', demo='''
package flow

import (
	"errors"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	f := NewProcessor[int, int]().Route(func(r *ProcessorRouterBuilder[int, int]) {
		r.Do(func(e, s int) error {
			if e == 1 {
				return errors.New("refused")
			}
			return nil
		})
	}).Build()
	var wg sync.WaitGroup
	lost := make([]int, 2)
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				if (f(g, 0) != nil) != (g == 1) {
					lost[g]++
				}
			}
		}(g)
	}
	wg.Wait()
	if lost[0]+lost[1] > 0 {
		t.Fatal("a call returned the outcome of another one")
	}
}
'''),
dict(id='simplemap-func-panic', property='Q02', pkg='collections',
 needs='a value function that panics, recovered by the caller, and another use of the map',
 breaks='the lock is never released, so every later call blocks for ever',
 edits=[('collections/map.go', '''	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok {
		return v, false
	}
	v := fn()
	m.m[key] = v
	return v, true''', '''	m.mu.Lock()
	if v, ok := m.m[key]; ok {
		m.mu.Unlock()
		return v, false
	}
	v := fn()
	m.m[key] = v
	m.mu.Unlock()
	return v, true''')],
 demo='''
package collections

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := NewSimpleMap[int, int]()
	func() {
		defer func() { recover() }()
		m.SetIfNotExistsWithFunc(1, func() int { panic("no value") })
	}()
	done := make(chan bool)
	go func() { m.Set(2, 2); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the map is locked for ever")
	}
}
'''),
dict(id='twokey-keysk2-nolock', property='Q01', pkg='collections', flags='-race',
 needs='KeysK2 while another goroutine puts a link',
 breaks='the table is read without the lock',
 edits=[('collections/two_key_map.go', '''func (m *TwoKeyMap[K1, K2, V]) KeysK2() []K2 {
	m.mu.RLock()
	defer m.mu.RUnlock()
	keys := make([]K2, 0, len(m.k2Tok1))
''', '''func (m *TwoKeyMap[K1, K2, V]) KeysK2() []K2 {
	keys := make([]K2, 0, m.Len())
''')],
 demo='''
package collections

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewTwoKeyMap[int, int, int]()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.Put(i, -i, i)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.KeysK2()
		}
	}()
	wg.Wait()
}
'''),
dict(id='hashset-hoc-window', property='H02', pkg='collections',
 needs='two goroutines creating the same key, both past the read-locked lookup',
 breaks='both are told they created the key',
 edits=[('collections/hash_set.go', '''	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok = s.m[key]
	if ok {
		return true
	}
	s.m[key] = true
''', '''	s.mu.Lock()
	defer s.mu.Unlock()
	if s.maxCount > 0 {
		if _, ok = s.m[key]; ok {
			return true
		}
	}
	s.m[key] = true
''')],
 demo='''
package collections

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 50000; round++ {
		s := NewHashSet[int]().Build()
		var wg sync.WaitGroup
		var created int32
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if !s.HasOrCreate(1) {
					atomic.AddInt32(&created, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if created != 1 {
			t.Fatalf("round %d: %d callers created the key", round, created)
		}
	}
}
'''),
dict(id='guava-load-recheck', property='G01', pkg='collections',
 needs='two callers loading the same key at once in a bounded map without load locking',
 breaks='the key is listed twice for eviction, so a later insertion evicts it although there is room',
 edits=[('collections/guava_map.go', '''	m.mu.Lock()
	defer m.mu.Unlock()
	val, ok = m.stored[key]
	if ok {
		if val.timer != nil && m.readTimeout > 0 {
			val.timer.Reset(m.readTimeout)
		}
		return val.v, nil
	}
	if m.maxCount > 0 {''', '''	m.mu.Lock()
	defer m.mu.Unlock()
	if m.maxCount > 0 {''')],
 demo='''
package collections

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var both sync.WaitGroup
	both.Add(2)
	m := NewGuavaMap[int, int]().WithMaxCount(2).WithLoadFunc(func(k int) (int, error) {
		both.Done()
		both.Wait()
		return k, nil
	}).Build()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); m.Get(1) }()
	}
	wg.Wait()
	m.Set(2, 2)
	if !m.Has(1) || !m.Has(2) {
		t.Fatalf("a map of 2 entries holds %v after two keys were stored", m.GetStored())
	}
}
'''),
dict(id='guava-clear-loopvar', property='G02', pkg='collections',
 needs='Clear on a map with several entries and an unload function',
 breaks='the goroutines share the loop variables, so entries are unloaded under the wrong key or several times',
 edits=[('collections/guava_map.go', '''			go m.unloadFunc(k, v.v)
		}
	}
	for''', '''			go func() { m.unloadFunc(k, v.v) }()
		}
	}
	for''')],
 demo='''
package collections

import (
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var mu sync.Mutex
	seen := map[int]int{}
	m := NewGuavaMap[int, int]().WithUnloadFunc(func(k, v int) {
		mu.Lock()
		seen[k]++
		mu.Unlock()
	}).Build()
	for i := 0; i < 200; i++ {
		m.Set(i, i)
	}
	m.Clear()
	time.Sleep(500 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if len(seen) != 200 {
		t.Fatalf("%d of 200 entries were unloaded", len(seen))
	}
}
'''),
dict(id='guava-update-early-unlock', property='G05', pkg='collections',
 needs='two updates of one key, the second starting between the computation and the publication of the first',
 breaks='the second update does not see the result of the first, which is lost',
 edits=[('collections/guava_map.go', '''	lock.Lock()
	defer lock.Unlock()
	res := update()
	m.mu.Lock()''', '''	lock.Lock()
	res := func() V {
		defer lock.Unlock()
		return update()
	}()
	m.mu.Lock()''')],
 demo='''
package collections

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewGuavaMap[int, int]().Build()
	m.Set(1, 0)
	const n, k = 8, 20000
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < k; j++ {
				m.LockForUpdate(1, func() int {
					v, _ := m.Get(1)
					return v + 1
				})
			}
		}()
	}
	wg.Wait()
	if v, _ := m.Get(1); v != n*k {
		t.Fatalf("%d updates, value %d", n*k, v)
	}
}
'''),
dict(id='pointmove-float', property='X02', pkg='math',
 needs='a value beyond the 53 bits of a float mantissa',
 breaks='the lower digits of large values are lost',
 edits=[('math/decimal_int.go', '''		for i := 0; i < -shift; i++ {
			value /= 10
		}
''', '''		f := float64(value)
		for i := 0; i < -shift; i++ {
			f /= 10
		}
		value = int(f)
''')],
 demo='''
package math

import "testing"

func TestDemo(t *testing.T) {
	if v := IntPointMove(9223372036854775807, -1); v != 922337203685477580 {
		t.Fatal(v)
	}
}
'''),
dict(id='set-equals-subset', property='S01', pkg='collections',
 needs='comparing a set with a larger set that contains it',
 breaks='a proper subset is reported equal',
 edits=[('collections/set.go', 'if s.Size() != other.Size() {', 'if s.Size() > other.Size() {')],
 demo='''
package collections

import "testing"

func TestDemo(t *testing.T) {
	if NewSet(1, 2).Equals(NewSet(1, 2, 3)) {
		t.Fatal("a proper subset is reported equal")
	}
}
'''),
]
