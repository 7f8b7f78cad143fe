S += [
dict(id='hashset-clear-keeps-order', property='H01', pkg='collections',
 needs='clearing a bounded set that holds keys and filling it beyond its limit again',
 breaks='the order list survives Clear, evictions then remove keys that are no longer there and the set grows past its limit',
 edits=[('collections/hash_set.go', '	s.m = make(map[K]bool)\n	s.ml = make([]K, 0)\n', '	clear(s.m)\n')],
 demo='''
package collections

import "testing"

func TestDemo(t *testing.T) {
	s := NewHashSet[int]().WithMaxCount(2).Build()
	s.Add(1)
	s.Add(2)
	s.Clear()
	for i := 3; i < 9; i++ {
		s.Add(i)
		if s.Count() > 2 || !s.Has(i) {
			t.Fatal(i, s.Keys())
		}
	}
}
'''),
dict(id='guava-locked-error-stored', property='G03', pkg='collections',
 needs='a map with load locking and a load function that fails',
 breaks='with load locking the error of a failed load is swallowed and the zero value cached',
 edits=[('collections/guava_map.go', '	if err != nil {\n		var v V\n		return v, err\n', '	if err != nil && m.lockLoad == nil {\n		var v V\n		return v, err\n')],
 demo='''
package collections

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, lock := range []bool{false, true} {
		n := 0
		m := NewGuavaMap[int, int]().WithLockLoad(lock).WithLoadFunc(func(int) (int, error) {
			n++
			if n < 3 {
				return 0, errors.New("no")
			}
			return 7, nil
		}).Build()
		for i := 1; i <= 2; i++ {
			if _, err := m.Get(1); err == nil || m.Size() != 0 {
				t.Fatal(lock, i, err, m.Size())
			}
		}
		if v, err := m.Get(1); v != 7 || err != nil {
			t.Fatal(lock, v, err)
		}
	}
}
'''),
dict(id='requestmap-late-waiter', property='R02', pkg='collections',
 needs='a second caller for a key while the creating function is still running',
 breaks='only the callers registered before the creating function started are woken, a later one waits forever',
 edits=[('collections/request_map.go', '			vx, err := f(key)\n			rm.mu.Lock()\n', '			rm.mu.RLock()\n			list := rm.waiters[key]\n			rm.mu.RUnlock()\n			vx, err := f(key)\n			rm.mu.Lock()\n'),
        ('collections/request_map.go', 'err: err, resultTime: time.Now()}\n			rm.response[key] = r\n			for _, c := range rm.waiters[key] {', 'err: err, resultTime: time.Now()}\n			rm.response[key] = r\n			for _, c := range list {')],
 demo='''
package collections

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rm := NewRequestMap[int, int](ctx, time.Minute)
	started, finish := make(chan bool), make(chan bool)
	f := func(int) (int, error) {
		close(started)
		<-finish
		return 5, nil
	}
	res := make(chan int, 2)
	call := func() {
		v, _ := rm.GetOrCreateWithErr(1, f)
		res <- v
	}
	go call()
	<-started
	go call()
	time.Sleep(100 * time.Millisecond)
	close(finish)
	for i := 0; i < 2; i++ {
		select {
		case v := <-res:
			if v != 5 {
				t.Fatal(v)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("a caller was not woken")
		}
	}
}
'''),
dict(id='requestmap-timeout-unbuffered', property='R04', pkg='collections',
 needs='calls that time out before the function returns, and a look at the goroutines left',
 breaks='the goroutine producing a late result blocks for ever',
 edits=[('collections/request_map.go', '		res := make(chan resultHolder[K, V], 1)\n', '		res := make(chan resultHolder[K, V])\n')],
 demo='''
package collections

import (
	"context"
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	rm := NewRequestMap[int, int](ctx, time.Minute)
	n := runtime.NumGoroutine()
	f := rm.Timeout(10*time.Millisecond, func(int) (int, error) {
		time.Sleep(100 * time.Millisecond)
		return 1, nil
	})
	for i := 0; i < 20; i++ {
		go f(i)
	}
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < 50 && runtime.NumGoroutine() > n+5; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if g := runtime.NumGoroutine(); g > n+5 {
		t.Fatal("goroutines left:", g-n)
	}
}
'''),
dict(id='holdermap-release-unmarked', property='D01', pkg='collections',
 needs='a second Wait for a key that was released a moment ago and has not been removed yet',
 breaks='a released entry is not marked as settled, so that a Wait joining it afterwards is never answered',
 edits=[('collections/holder_map.go', '				case errInChan := <-h.inChan:\n					h.mu.Lock()\n					h.released = true\n', '				case errInChan := <-h.inChan:\n					h.mu.Lock()\n')],
 demo='''
package collections

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	hm := NewHolderMap[int, string]().WithTimeout(time.Minute).WithTTL(time.Minute).Build()
	done := make(chan error, 2)
	go func() { done <- hm.Wait(1, "a") }()
	for hm.Release(1) != nil {
		time.Sleep(time.Millisecond)
	}
	for i := 0; i < 2; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(3 * time.Second):
			t.Fatal("no verdict for waiter", i)
		}
		go func() { done <- hm.Wait(1, "b") }()
	}
}
'''),
dict(id='holdermap-update-settled', property='D02', pkg='collections',
 needs='an Update of a key between its release and its removal, followed by Get',
 breaks='the update of a settled key is reported as done but dropped',
 edits=[('collections/holder_map.go', '		h.Object = target\n', '		if !h.released {\n			h.Object = target\n		}\n')],
 demo='''
package collections

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	hm := NewHolderMap[int, string]().WithTimeout(time.Minute).WithTTL(time.Minute).Build()
	done := make(chan error, 1)
	go func() { done <- hm.Wait(1, "a") }()
	for hm.Release(1) != nil {
		time.Sleep(time.Millisecond)
	}
	<-done
	if err := hm.Update(1, "b"); err != nil {
		t.Fatal(err)
	}
	if v, err := hm.Get(1); v != "b" || err != nil {
		t.Fatal(v, err)
	}
}
'''),
dict(id='cryptofs-empty-secret', property='F01', pkg='crypto_fs',
 needs='a builder given an empty, non-nil secret',
 breaks='the contents are written unencrypted without an error',
 edits=[('crypto_fs/crypto_fs.go', '	if b.aesSecret != nil {', '	if len(b.aesSecret) > 0 {')],
 demo='''
package crypto_fs

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	src, out := filepath.Join(d, "a.txt"), filepath.Join(d, "o.bin")
	if err := os.WriteFile(src, []byte("top secret text"), 0o600); err != nil {
		t.Fatal(err)
	}
	err := NewCryptoFSBuilder().WithAES([]byte{}).WithSavePath(out).AddFile(src).Save()
	data, _ := os.ReadFile(out)
	if err == nil && bytes.Contains(data, []byte("top secret text")) {
		t.Fatal("written in the clear")
	}
}
'''),
dict(id='cryptofs-plain-fallback', property='F03', pkg='crypto_fs',
 needs='loading an unencrypted or foreign file with a secret',
 breaks='a file that does not authenticate is taken as it is',
 edits=[('crypto_fs/crypto_fs.go', '		decrypted, err := aes.Decrypt(f)\n		if err != nil {\n			return nil, err\n		}\n', '		decrypted, err := aes.Decrypt(f)\n		if err != nil {\n			decrypted = f\n		}\n')],
 demo='''
package crypto_fs

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	src, out := filepath.Join(d, "a.txt"), filepath.Join(d, "o.bin")
	if err := os.WriteFile(src, []byte("text"), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := NewCryptoFSBuilder().WithSavePath(out).AddFile(src).Save(); err != nil {
		t.Fatal(err)
	}
	if _, err := CryptoFSFromFile(out, nil); err != nil {
		t.Fatal(err)
	}
	if _, err := CryptoFSFromFile(out, make([]byte, 32)); err == nil {
		t.Fatal("an unauthenticated file was accepted")
	}
}
'''),
dict(id='cryptofs-skip-empty', property='F04', pkg='crypto_fs',
 needs='a folder that holds an empty file',
 breaks='empty files of a folder are left out',
 edits=[('crypto_fs/crypto_fs.go', '		b.files[root] = file{\n			FileName:  info.Name(),\n			Path:      root,\n			IsDirFlag: info.IsDir(),\n			Data:      content,\n		}\n', '		if len(content) != 0 {\n			b.files[root] = file{FileName: info.Name(), Path: root, Data: content}\n		}\n')],
 demo='''
package crypto_fs

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	src, out := filepath.Join(d, "in"), filepath.Join(d, "o.bin")
	os.Mkdir(src, 0o700)
	for n, s := range map[string]string{"a.txt": "text", "empty": ""} {
		if err := os.WriteFile(filepath.Join(src, n), []byte(s), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	if err := NewCryptoFSBuilder().WithSavePath(out).AddFolder(src).Save(); err != nil {
		t.Fatal(err)
	}
	c, err := CryptoFSFromFile(out, nil)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a.txt", "empty"} {
		if _, err := c.Open(filepath.Join(src, n)); err != nil {
			t.Fatal(n, err)
		}
	}
}
'''),
dict(id='bytes-int-signed', property='N02', pkg='net',
 needs='a byte with its top bit set below the most significant one',
 breaks='bytes of 128 and above are sign-extended into the higher bytes',
 edits=[('net/to_bytes.go', '		res |= int(b) << uint(i*8)\n', '		res |= int(int8(b)) << uint(i*8)\n')],
 demo='''
package net

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []int{0, 1, 127, 128, 255, 256, 40000, 1 << 30} {
		if g := GetIntFromBytes(GetBytesFromInt(v, 8)); g != v {
			t.Fatal(v, g)
		}
		if g := GetIntFromBytes(GetBytesFromInt(v, 5)); g != v {
			t.Fatal(v, g)
		}
	}
}
'''),
dict(id='max-uint-signed', property='X01', pkg='math',
 needs='an operand of at least two to the sixty-third',
 breaks='large unsigned operands are compared as negative numbers',
 edits=[('math/minmax.go', 'func MaxUInt64(a, b uint64) uint64 {\n	if a > b {', 'func MaxUInt64(a, b uint64) uint64 {\n	if int64(a-b) > 0 {')],
 demo='''
package math

import "testing"

func TestDemo(t *testing.T) {
	l := []uint64{0, 1, 2, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
	for i, a := range l {
		for j, b := range l {
			if m := MaxUInt64(a, b); m != l[max(i, j)] {
				t.Fatal(a, b, m)
			}
		}
	}
}
'''),
dict(id='structuniq-queue-drop', property='U02', pkg='collections',
 needs='one element expiring while at least two younger ones are queued behind it',
 breaks='the cleanup drops younger elements from its queue, they are never removed',
 edits=[('collections/struct_uniq_set.go', '						expired = i\n						break\n', '						expired = i\n						continue\n')],
 demo='''
package collections

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(400 * time.Millisecond).WithCheckInterval(20 * time.Millisecond).Build()
	s.Add(1)
	time.Sleep(200 * time.Millisecond)
	s.Add(2)
	s.Add(3)
	s.Add(4)
	for i := 0; i < 60 && s.Count() > 0; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if n := s.Count(); n != 0 {
		t.Fatal("elements left:", n)
	}
}
'''),
dict(id='waitmap-ttl-request', property='V02', pkg='collections',
 needs='a response lifetime longer than the request timeout',
 breaks='a value is dropped after the request timeout instead of its own lifetime',
 edits=[('collections/wait_map.go', '		case <-time.After(wm.responseTtl):', '		case <-time.After(min(wm.requestTimeout, wm.responseTtl)):')],
 demo='''
package collections

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m := NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(50 * time.Millisecond).WithResponseTtl(time.Minute).Build()
	m.Set(1, 7)
	time.Sleep(300 * time.Millisecond)
	if v := m.Wait(1); v != 7 {
		t.Fatal(v)
	}
}
'''),
dict(id='shardchunk-relay-spawn', property='C04', pkg='chans',
 needs='more items waiting for a chunker than its incoming buffer holds',
 breaks='items of one shard overtake each other on the way to the chunker',
 edits=[('chans/shard_chunk_chan.go', '					chunkers[k].Add(m)\n', '					go chunkers[k].Add(m)\n')],
 demo='''
package chans

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := make(chan int, 10)
	c, err := NewShardChunk[int]().WithContext(ctx).WithShardCount(2).WithChunkSize(3).WithOutgoingBufferSize(1).WithIncomingChan(in).WithShardFunc(func(i int) int { return i }).Build()
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for i := 0; i < 6000; i++ {
			select {
			case in <- i:
			case <-ctx.Done():
				return
			}
		}
	}()
	next := [2]int{0, 1}
	for n := 0; n < 6000; {
		var l []int
		k := 0
		select {
		case l = <-c.C(0):
		case l = <-c.C(1):
			k = 1
		case <-time.After(10 * time.Second):
			t.Fatal("nothing delivered after", n)
		}
		time.Sleep(50 * time.Microsecond)
		for _, v := range l {
			if v != next[k] {
				t.Fatal("shard", k, "expected", next[k], "got", v)
			}
			next[k] += 2
			n++
		}
	}
}
'''),
dict(id='shardchunk-buffer-swap', property='B01', pkg='chans',
 needs='a ShardChunk built with different incoming and outgoing buffer sizes',
 breaks='the queues of finished chunks get the size configured for incoming items',
 edits=[('chans/shard_chunk_chan.go', 'WithOutgoingBufferSize(b.outgoingBufferSize)', 'WithOutgoingBufferSize(b.incomingBufferSize)')],
 demo='''
package chans

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := NewShardChunk[int]().WithContext(ctx).WithShardCount(2).WithIncomingBufferSize(8).WithOutgoingBufferSize(3).WithShardFunc(func(i int) int { return i }).Build()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if n := cap(c.C(i)); n != 3 {
			t.Fatal(i, n)
		}
	}
}
'''),
dict(id='responsemap-no-recheck', property='P01', pkg='collections',
 needs='a Wait and a Set for a fresh key, both past the read-locked lookup before either inserts',
 breaks='two entries are made for one key, the waiter of the first is not woken by the value set in the second',
 edits=[('collections/response_map.go', '	defer r.mu.Unlock()\n	holder, ok = r.m[key]\n	if ok {\n		return holder\n	}\n', '	defer r.mu.Unlock()\n')],
 demo='''
package collections

import (
	"context"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m := NewResponseMap[int, int](ctx).WithResponseTimeout(5 * time.Second).WithClearTimeout(time.Minute).Build()
	for k := 0; k < 3000; k++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		got := make([]int, 3)
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				got[i] = m.Wait(k)
			}(i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			m.Set(k, 9)
		}()
		close(start)
		wg.Wait()
		for i, v := range got {
			if v != 9 {
				t.Fatal("key", k, "waiter", i, "got", v)
			}
		}
	}
}
'''),
dict(id='chunkchan-late-append', property='C01', pkg='chans',
 needs='the context-free case of a full buffer of finished chunks: a consumer that pauses while items keep coming',
 breaks='a timer flush that finds the outgoing queue full throws the chunk away',
 edits=[('chans/chunk_chan.go', '			if len(chunk) > 0 {\n				select {\n				case <-c.ctx.Done():\n					return\n				case c.outgoingChan <- chunk:\n				}\n', '			if len(chunk) > 0 {\n				select {\n				case c.outgoingChan <- chunk:\n				default:\n				}\n')],
 demo='''
package chans

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := NewChunkChan[int]().WithContext(ctx).WithChunkSize(100).WithOutgoingBufferSize(1).WithChunkTimeout(10 * time.Millisecond).Build()
	const n = 20
	go func() {
		for i := 0; i < n; i++ {
			c.Add(i)
			time.Sleep(15 * time.Millisecond)
		}
	}()
	time.Sleep(200 * time.Millisecond)
	for next := 0; next < n; {
		select {
		case l := <-c.C():
			for _, v := range l {
				if v != next {
					t.Fatal("expected", next, "got", v)
				}
				next++
			}
		case <-time.After(5 * time.Second):
			t.Fatal("stopped at", next)
		}
	}
}
'''),
dict(id='aes-decrypt-nonce-tail', property='A02', pkg='crypto',
 needs='nothing but a ciphertext of at least two nonces',
 breaks='Decrypt takes the nonce from the end of the input',
 edits=[('crypto/aes.go', 'gcm.Open(nil, nonce, ciphertext, nil)\n	if err != nil {\n		return nil, err\n	}\n', 'gcm.Open(nil, nonce, ciphertext, nil)\n	if err != nil && len(ciphertext) > gcm.Overhead() {\n		return nil, err\n	}\n')],
 demo='''
package crypto

import "testing"

func TestDemo(t *testing.T) {
	a := NewAES(make([]byte, 32))
	c, err := a.Encrypt(nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := a.Decrypt(c); err != nil {
		t.Fatal(err)
	}
	for i := range c {
		c[i] ^= 1
		if _, err := a.Decrypt(c); err == nil {
			t.Fatal("accepted with byte", i, "changed")
		}
		c[i] ^= 1
		if _, err := a.Decrypt(c[:i]); err == nil {
			t.Fatal("accepted", i, "bytes")
		}
	}
}
'''),
]
for s in S:
    if s['id'] == 'aes-decrypt-nonce-tail':
        s.update(id='aes-empty-unauthenticated', needs='a forged or damaged ciphertext of an empty plaintext',
                 breaks='a short ciphertext that does not authenticate is accepted as an empty plaintext')
    if s['id'] == 'chunkchan-late-append':
        s.update(id='chunkchan-flush-drop', needs='a consumer that pauses while items keep coming and the queue of chunks is full')
