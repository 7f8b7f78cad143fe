"""Release of tickers, timers and files (Q04)."""
from round2 import F
CK="chans/chunk_chan.go"; GM="collections/guava_map.go"; HO="collections/holder_map.go"; RM="collections/response_map.go"; FS="crypto_fs/crypto_fs.go"; WM="collections/wait_map.go"; SU="collections/struct_uniq_set.go"
OP="""	of, err := os.Open(path)
	if err != nil {
		return b
	}
	defer of.Close()
	data, err := os.ReadFile(path)
	if err != nil {
		return b
	}
"""
M=[
("ck-nostop","Q04",[(CK,"	defer t.Stop()\n","")]),
("ck-undefer","C02",[(CK,"	defer t.Stop()\n	chunk","	t.Stop()\n	chunk")]),
("ck-stop-one","Q04",[(CK,"	defer t.Stop()\n",""),(CK,"""		case <-c.ctx.Done():
			return
		case <-t.C:""","""		case <-c.ctx.Done():
			t.Stop()
			return
		case <-t.C:""")]),
("ck-tick","Q04",[(CK,"	t := time.NewTicker(c.chunkTimeout)\n	defer t.Stop()\n","	t := time.Tick(c.chunkTimeout)\n"),(CK,"case <-t.C:","case <-t:")]),
("ck-ok-each","",[(CK,"	defer t.Stop()\n",""),(CK,"""		case <-c.ctx.Done():
			return
		case <-t.C:""","""		case <-c.ctx.Done():
			t.Stop()
			return
		case <-t.C:"""),(CK,"""				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				}
				chunk = make([]T, 0, c.chunkSize)
			}
		case item""","""				case <-c.ctx.Done():
					t.Stop()
					return
				case c.outgoingChan <- chunk:
				}
				chunk = make([]T, 0, c.chunkSize)
			}
		case item"""),(CK,"""			if len(chunk) >= c.chunkSize {
				select {
				case <-c.ctx.Done():
					return""","""			if len(chunk) >= c.chunkSize {
				select {
				case <-c.ctx.Done():
					t.Stop()
					return""")]),
("ck-ok-closure","",[(CK,"	defer t.Stop()\n","	defer func() {\n		t.Stop()\n	}()\n")]),
("gm-nostop","Q04",[(GM,"			defer res.timer.Stop()\n","")]),
("gm-ok-case","",[(GM,"			defer res.timer.Stop()\n",""),(GM,"			case <-ctx.Done():\n				return\n			case <-res","			case <-ctx.Done():\n				res.timer.Stop()\n				return\n			case <-res")]),
("gm-ok-local","",[(GM,"		go func() {\n			defer res.timer.Stop()","		timer := res.timer\n		go func() {\n			defer timer.Stop()"),(GM,"case <-res.timer.C","case <-timer.C")]),
("ho-nostop","Q04",[(HO,"				defer h.timeOutTimer.Stop()\n","")]),
("ho-ok-helper","",[(HO,"				defer h.timeOutTimer.Stop()\n","				defer h.stopTimer()\n"),(HO,"func (c *HolderMap[K, V]) Update","func (h *holderMapHolder[V]) stopTimer() { h.timeOutTimer.Stop() }\n\nfunc (c *HolderMap[K, V]) Update")]),
("rm-nostop","Q04",[(RM,"		defer h.t.Stop()\n","")]),
("rm-ok-case","",[(RM,"		defer h.t.Stop()\n",""),(RM,"			case <-h.ctx.Done():\n				h.mu.Lock()","			case <-h.ctx.Done():\n				h.t.Stop()\n				h.mu.Lock()")]),
("rm-noticker","Q04",[(RM,"	defer t.Stop()\n","")]),
("rm-after","",[(RM,"	t := time.NewTicker(r.clearTimeout)\n	defer t.Stop()\n",""),(RM,"case <-t.C:","case <-time.After(r.clearTimeout):")]),
("fs-noclose","Q04",[(FS,"	defer of.Close()\n","")]),
("fs-late","Q04",[(FS,OP,OP.replace("	defer of.Close()\n","")+"	defer of.Close()\n")]),
("fs-early","",[(FS,OP,OP.replace("	defer of.Close()\n","	of.Close()\n"))]),
("fs-ok-closure","",[(FS,"	defer of.Close()\n","	defer func() {\n		_ = of.Close()\n	}()\n")]),
("fs-ok-nofile","",[(FS,OP,"""	data, err := os.ReadFile(path)
	if err != nil {
		return b
	}
"""),(FS,"of.Name()","path")]),
("fs-ok-errlast","",[(FS,OP,"""	of, err := os.Open(path)
	if err != nil {
		return b
	}
	data, err := os.ReadFile(path)
	of.Close()
	if err != nil {
		return b
	}
""")]),
("save-noclose","Q04",[(FS,"		target.Close()\n		return err\n","		return err\n")]),
("save-ok-defer","",[(FS,"""	_, err = target.Write(data)
	if err != nil {
		target.Close()
		return err
	}
	return target.Close()""","""	_, err = target.Write(data)
	if cerr := target.Close(); err == nil {
		err = cerr
	}
	return err""")]),
("wm-ok-timer","",[(WM,"	go func() {\n		select {\n		case <-wm.ctx.Done():\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n			return\n		case <-time.After(wm.responseTtl):","	go func() {\n		t := time.NewTimer(wm.responseTtl)\n		defer t.Stop()\n		select {\n		case <-wm.ctx.Done():\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n			return\n		case <-t.C:")]),
("wm-timer-leak","Q04",[(WM,"	go func() {\n		select {\n		case <-wm.ctx.Done():\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n			return\n		case <-time.After(wm.responseTtl):","	go func() {\n		t := time.NewTimer(wm.responseTtl)\n		select {\n		case <-wm.ctx.Done():\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n			return\n		case <-t.C:")]),
("wm-ok-fired","",[(WM,"	go func() {\n		select {\n		case <-wm.ctx.Done():\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n			return\n		case <-time.After(wm.responseTtl):","	go func() {\n		t := time.NewTimer(wm.responseTtl)\n		select {\n		case <-wm.ctx.Done():\n			t.Stop()\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n			return\n		case <-t.C:")]),
]
