S += [dict(id='structuniq-add-window', property='U01', pkg='collections',
 needs='two goroutines adding the same value, both past the read-locked lookup before either stores',
 breaks='Add reports the same value as new to more than one caller',
 edits=[('collections/struct_uniq_set.go', '''	s.elementsMu.Lock()
	_, ok = s.elements[hash]
	if !ok {
		s.elements[hash] = &structUniqSetElement{hash: hash, createdAt: time.Now()}
		s.ttlElements = append(s.ttlElements, s.elements[hash])
	}
	s.elementsMu.Unlock()
''', '''	el := &structUniqSetElement{hash: hash, createdAt: time.Now()}
	s.elementsMu.Lock()
	s.elements[hash] = el
	s.ttlElements = append(s.ttlElements, el)
	s.elementsMu.Unlock()
''')],
 demo='''
package collections

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		s := &StructUniqSet[int]{
			build:    func(v int, keys ...any) ([16]byte, error) { return [16]byte{1}, nil },
			elements: map[[16]byte]*structUniqSetElement{},
		}
		var wg sync.WaitGroup
		var winners int32
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if isNew, _ := s.Add(1); isNew {
					atomic.AddInt32(&winners, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if winners != 1 {
			t.Fatalf("round %d: %d callers were told the value is new", round, winners)
		}
	}
}
'''),
dict(id='requestmap-no-recheck', property='R01', pkg='collections',
 needs='the producer of a key publishes between another caller\'s read-locked lookup and its write lock',
 breaks='the function runs a second time although the result is cached',
 edits=[('collections/request_map.go', '''	rm.mu.Lock()
	v, ok = rm.response[key]
	if ok {
		rm.mu.Unlock()
		return v.result, v.err
	}
	ch := make''', '''	rm.mu.Lock()
	ch := make''')],
 demo='''
package collections

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for round := 0; round < 30000; round++ {
		rm := &RequestMap[int, int]{
			waiters:     make(map[int][]chan resultHolder[int, int]),
			response:    make(map[int]resultHolder[int, int]),
			deleteAfter: time.Hour,
			ctx:         ctx,
		}
		var calls int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_, _ = rm.GetOrCreateWithErr(1, func(int) (int, error) {
					atomic.AddInt32(&calls, 1)
					return 1, nil
				})
			}()
		}
		close(start)
		wg.Wait()
		if c := atomic.LoadInt32(&calls); c != 1 {
			t.Fatalf("round %d: the function ran %d times", round, c)
		}
	}
}
'''),
dict(id='guava-timer-choice', property='G04', pkg='collections',
 needs='a map with both a write timeout and a longer read timeout, and an entry that is never read again',
 breaks='a fresh entry is armed with the read timeout, so it outlives its write timeout',
 edits=[('collections/guava_map.go', '''		if m.writeTimeout > 0 {
			res.timer = time.NewTimer(m.writeTimeout)
		} else {
			res.timer = time.NewTimer(m.readTimeout)
		}
''', '''		timeout := m.writeTimeout
		if m.readTimeout > timeout {
			timeout = m.readTimeout
		}
		res.timer = time.NewTimer(timeout)
''')],
 demo='''
package collections

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := NewGuavaMap[int, int]().WithWriteTimeout(50 * time.Millisecond).WithReadTimeout(time.Hour).Build()
	m.Set(1, 1)
	deadline := time.Now().Add(10 * time.Second)
	for m.Size() != 0 {
		if time.Now().After(deadline) {
			t.Fatal("the entry outlived its write timeout")
		}
		time.Sleep(10 * time.Millisecond)
	}
}
'''),
dict(id='shardmap-clear-last', property='M02', pkg='collections',
 needs='Clear on a map whose last shard holds entries',
 breaks='Clear leaves the entries of the last shard in place',
 edits=[('collections/shard_map.go', '''	for i := 0; i < m.shardsCount; i++ {
		m.shardsLock[i].Lock()
		m.shards[i] = make(map[K]V)
''', '''	for i := range m.shards[1:] {
		m.shardsLock[i].Lock()
		m.shards[i] = make(map[K]V)
''')],
 demo='''
package collections

import "testing"

func TestDemo(t *testing.T) {
	m := NewShardMap[int, int]().WithShardsCount(4).WithShardsFunc(func(k int) int { return k % 4 }).Build()
	m.Set(3, 1)
	m.Clear()
	if m.Size() != 0 {
		t.Fatal("an entry survived Clear")
	}
}
'''),
]
