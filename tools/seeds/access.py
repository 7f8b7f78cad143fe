S += [
dict(id='shardchunk-c-bound', property='C06', pkg='chans',
 needs='asking a ShardChunk for the channel of the index equal to its shard count',
 breaks='the index one past the last shard is taken for valid and C panics instead of returning nil',
 edits=[('chans/shard_chunk_chan.go', 'if key < 0 || key >= s.sharder.ShardCount() {', 'if key < 0 || key > s.sharder.ShardCount() {')],
 demo='''
package chans

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := NewShardChunk[int]().WithContext(ctx).WithShardCount(3).WithShardFunc(func(i int) int { return i }).Build()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if c.C(i) == nil {
			t.Fatal("no channel", i)
		}
	}
	for _, i := range []int{-1, 3, 4, 1 << 40} {
		if c.C(i) != nil {
			t.Fatal("channel for", i)
		}
	}
}
'''),
dict(id='shardchunk-sizes-last', property='C06', pkg='chans',
 needs='chunks waiting in more than one shard when the totals are read',
 breaks='the outgoing total is that of the last shard only',
 edits=[('chans/shard_chunk_chan.go', '		chunkerTotalSizeOut += out', '		chunkerTotalSizeOut = out')],
 demo='''
package chans

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := make(chan int, 10)
	c, err := NewShardChunk[int]().WithContext(ctx).WithShardCount(3).WithChunkSize(1).WithIncomingChan(in).WithShardFunc(func(i int) int { return i }).Build()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 6; i++ {
		in <- i
	}
	for i := 0; ; i++ {
		n := 0
		for k := 0; k < 3; k++ {
			n += len(c.C(k))
		}
		if n == 6 {
			break
		}
		if i > 2000 {
			t.Fatal("chunks never came out", n)
		}
		time.Sleep(time.Millisecond)
	}
	if _, _, out := c.Sizes(); out != 6 {
		t.Fatal("outgoing total", out)
	}
}
'''),
dict(id='shardchan-late-refusal', property='B02', pkg='chans',
 needs='building a ShardChan without a shard function but with a worker and counting goroutines',
 breaks='the missing shard function is noticed only after the routing goroutine has been started',
 edits=[('chans/shard_chan.go', '''	if b.shardFunc == nil {
		return nil, ErrShardFuncIsNil
	}
''', ''), ('chans/shard_chan.go', '''	if workerFunc != nil {
		for i''', '''	if b.shardFunc == nil {
		return nil, ErrShardFuncIsNil
	}
	if workerFunc != nil {
		for i''')],
 demo='''
package chans

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		c, err := NewShardChan[int]().WithContext(ctx).WithWorkerFunc(func(int, int) {}).Build()
		if err != ErrShardFuncIsNil || c != nil {
			t.Fatal("not refused")
		}
	}
	time.Sleep(50 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatal("goroutines left by refused builds:", n-before)
	}
}
'''),
dict(id='guava-expiry-wrong-ctx', property='G07', pkg='collections',
 needs='deleting entries of a map with a long timeout and looking at the goroutines left',
 breaks='the expiry goroutine of an entry waits for the context of the map instead of that of the entry, so it outlives the entry',
 edits=[('collections/guava_map.go', '''			select {
			case <-ctx.Done():
				return
			case <-res.timer.C:''', '''			select {
			case <-m.ctx.Done():
				return
			case <-res.timer.C:'''), ('collections/guava_map.go', 'ctx, cancelFn := context.WithCancel(m.ctx)', '_, cancelFn := context.WithCancel(m.ctx)')],
 demo='''
package collections

import (
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := NewGuavaMap[int, int]().WithWriteTimeout(time.Hour).Build()
	before := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		m.Set(i, i)
		m.Delete(i)
	}
	for i := 0; i < 200 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatal("goroutines left by deleted entries:", n-before)
	}
}
'''),
dict(id='guava-clear-no-unload', property='Q03', pkg='collections',
 needs='Clear of a map that holds entries and was built without an unload function',
 breaks='Clear starts the absent unload function, which ends the program',
 edits=[('collections/guava_map.go', '''	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
		}
	}
''', '''	for k, v := range m.stored {
		go m.unloadFunc(k, v.v)
	}
''')],
 demo='''
package collections

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := NewGuavaMap[int, int]().Build()
	m.Set(1, 1)
	m.Clear()
	time.Sleep(20 * time.Millisecond)
	if m.Size() != 0 {
		t.Fatal("not cleared")
	}
}
'''),
dict(id='bools-tail-guard', property='N03', pkg='net',
 needs='packing a number of flags that is not a multiple of eight, with the last ones set',
 breaks='the guard that ends the last byte looks at the wrong position, so packing reads past the flags',
 edits=[('net/to_bytes.go', 'if i+j >= len(data) {', 'if i+j > len(data) {')],
 demo='''
package net

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		in := make([]bool, n)
		for i := range in {
			in[i] = i%3 == 0
		}
		out := ByteToBoolArray(BoolArrayToByte(in), n)
		for i := range in {
			if in[i] != out[i] {
				t.Fatal(n, i)
			}
		}
	}
}
'''),
dict(id='addfile-unreadable-leak', property='Q04', pkg='crypto_fs',
 needs='adding paths that can be opened but not read, such as directories',
 breaks='the file opened for its name is closed only if its content could be read',
 edits=[('crypto_fs/crypto_fs.go', '''	defer of.Close()
	data, err := os.ReadFile(path)
	if err != nil {
		return b
	}
''', '''	data, err := os.ReadFile(path)
	if err != nil {
		return b
	}
	defer of.Close()
''')],
 demo='''
package crypto_fs

import (
	"os"
	"runtime/debug"
	"testing"
)

func TestDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	dir := t.TempDir()
	count := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip(err)
		}
		return len(l)
	}
	b := NewCryptoFSBuilder()
	before := count()
	for i := 0; i < 50; i++ {
		b.AddFile(dir)
	}
	if n := count(); n > before+10 {
		t.Fatal("files left open:", n-before)
	}
}
'''),
dict(id='requestmap-count-split', property='I01', pkg='collections',
 needs='a request completing between the two reads of Count',
 breaks='Count reads its two tables in separate critical sections, so a completing key is counted twice',
 edits=[('collections/request_map.go', '''	a := len(rm.waiters)
	b := len(rm.response)
	return a + b''', '''	a := len(rm.waiters)
	rm.mu.RUnlock()
	rm.mu.RLock()
	b := len(rm.response)
	return a + b''')],
 demo='''
package collections

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := NewRequestMap[int, int](context.Background(), time.Hour)
	var started atomic.Int64
	var stop, bad atomic.Bool
	for i := 0; i < 4; i++ {
		go func() {
			for !stop.Load() {
				if n := m.Count(); int64(n) > started.Load() {
					bad.Store(true)
				}
			}
		}()
	}
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 300000 && !bad.Load() && time.Now().Before(end); i++ {
		started.Add(1)
		m.GetOrCreate(i, func(k int) int { return k })
	}
	stop.Store(true)
	if bad.Load() {
		t.Fatal("a key was counted twice")
	}
}
'''),
]
