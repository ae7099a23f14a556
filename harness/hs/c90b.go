package hs

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	lru "github.com/hashicorp/golang-lru"
	"github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"

	"verif/harness/nd"
)

type inner struct {
	A int               `json:"a"`
	B *string           `json:"b,omitempty"`
	C map[string]uint64 `json:"c,omitempty"`
}

type outer struct {
	I   inner           `json:"i"`
	P   *inner          `json:"p"`
	L   []inner         `json:"l"`
	R   json.RawMessage `json:"r,omitempty"`
	N   interface{}     `json:"n"`
	Hex hexutil.Bytes   `json:"hex"`
	Sk  int             `json:"-"`
	un  int
	Def bool
}

// C90_json: encoding and decoding.
func C90_json() {
	s := "x<"
	o := outer{I: inner{A: -3, B: &s, C: map[string]uint64{"z": 1, "a": 1 << 63}}, L: []inner{{A: 1}}, R: json.RawMessage(`{"q": [1,2]}`), N: 1.5, Hex: hexutil.Bytes{1, 171}, Sk: 4, un: 5}
	b, err := json.Marshal(o)
	nd.Assert(err == nil, "marshal")
	nd.Assert(string(b) == `{"i":{"a":-3,"b":"x\u003c","c":{"a":9223372036854775808,"z":1}},"p":null,"l":[{"a":1}],"r":{"q":[1,2]},"n":1.5,"hex":"0x01ab","Def":false}`, "text")
	var q outer
	nd.Assert(json.Unmarshal(b, &q) == nil && *q.I.B == s && q.I.C["a"] == 1<<63 && q.P == nil && len(q.L) == 1 && q.N.(float64) == 1.5 && bytes.Equal(q.Hex, o.Hex), "unmarshal")
	var any interface{}
	nd.Assert(json.Unmarshal([]byte(`{"a":[1,"b",null,true]}`), &any) == nil, "any")
	l := any.(map[string]interface{})["a"].([]interface{})
	nd.Assert(l[0].(float64) == 1 && l[1].(string) == "b" && l[2] == nil && l[3].(bool), "any list")
	var raw map[string]json.RawMessage
	nd.Assert(json.Unmarshal(b, &raw) == nil && string(raw["p"]) == "null", "raw")
	nd.Assert(json.Unmarshal([]byte(`{"a":`), &any) != nil, "truncated")
	nd.Assert(json.Unmarshal([]byte(`{"i":"x"}`), &q) != nil, "wrong type")
	nd.Assert(json.Unmarshal([]byte(`{"I":{"A":9}}`), &q) == nil && q.I.A == 9, "case")
	v := nd.Bytes("v", 2)
	h, err := json.Marshal(hexutil.Bytes(v))
	nd.Assert(err == nil, "marshal hex")
	var w hexutil.Bytes
	nd.Assert(json.Unmarshal(h, &w) == nil && bytes.Equal(v, w), "hex round trip")
	nd.Reach("end")
}

// C90_base64: text encodings.
func C90_base64() {
	nd.Assert(base64.StdEncoding.EncodeToString([]byte{1, 2, 3, 4}) == "AQIDBA==", "base64")
	b, err := base64.StdEncoding.DecodeString("AQIDBA==")
	nd.Assert(err == nil && len(b) == 4, "decode")
	nd.Reach("end")
}

// C90_regexp: patterns.
func C90_regexp() {
	r := regexp.MustCompile("(?i)a(b+)c?")
	nd.Assert(r.FindStringSubmatch("xABBcy")[1] == "BB", "submatch")
	nd.Assert(r.ReplaceAllString("abab", "-") == "--", "replace")
	nd.Assert(len(r.FindAllString("ab ab", -1)) == 2, "all")
	nd.Assert(r.NumSubexp() == 1 && r.String() == "(?i)a(b+)c?", "info")
	ok, err := regexp.MatchString("^a.c$", "abc")
	nd.Assert(ok && err == nil, "match")
	nd.Assert(r.Match([]byte("zab")), "bytes")
	nd.Assert(regexp.MustCompile("a+").FindIndex([]byte("baa"))[1] == 3, "index")
	nd.Reach("end")
}

// C90_lru: the cache used throughout.
func C90_lru() {
	ev := 0
	c, err := lru.NewWithEvict(2, func(k, v interface{}) { ev++ })
	nd.Assert(err == nil, "new")
	c.Add("a", 1)
	c.Add("b", 2)
	c.Get("a")
	c.Add("c", 3)
	nd.Assert(ev == 1 && c.Contains("a") && !c.Contains("b") && c.Len() == 2, "evicts the oldest")
	v, ok := c.Peek("a")
	nd.Assert(ok && v.(int) == 1, "peek")
	prev, ok, _ := c.PeekOrAdd("c", 4)
	nd.Assert(ok && prev.(int) == 3, "peek or add")
	nd.Assert(c.Remove("a") && len(c.Keys()) == 1, "remove")
	c.Purge()
	nd.Assert(c.Len() == 0, "purge")
	h := types.Hash{1}
	c.Add(h, "x")
	_, ok = c.Get(types.BytesToHash(h.Bytes()))
	nd.Assert(ok, "hash keys")
	nd.Reach("end")
}

type pool struct {
	mu   sync.Mutex
	errs []error
	wg   sync.WaitGroup
	sem  chan struct{}
}

func (p *pool) run(f func() error) {
	p.wg.Add(1)
	p.sem <- struct{}{}
	go func() {
		defer func() { <-p.sem; p.wg.Done() }()
		if err := f(); err != nil {
			p.mu.Lock()
			p.errs = append(p.errs, err)
			p.mu.Unlock()
		}
	}()
}

// C90_styles: concurrency in various styles.
func C90_styles() {
	p := &pool{sem: make(chan struct{}, 2)}
	for i := 0; i < 4; i++ {
		i := i
		p.run(func() error {
			if i%2 == 1 {
				return fmt.Errorf("e%d", i)
			}
			return nil
		})
	}
	p.wg.Wait()
	nd.Assert(len(p.errs) == 2, "pool")
	nd.Assert(errors.Is(errors.Join(p.errs...), p.errs[1]), "join")
	src := func(n int) <-chan int {
		c := make(chan int)
		go func() {
			defer close(c)
			for i := 0; i < n; i++ {
				c <- i
			}
		}()
		return c
	}
	sum := 0
	a, b := src(3), src(4)
	for a != nil || b != nil {
		select {
		case x, ok := <-a:
			if !ok {
				a = nil
				continue
			}
			sum += x
		case x, ok := <-b:
			if !ok {
				b = nil
				break
			}
			sum += x
		}
	}
	nd.Assert(sum == 9, "merge")
	quit := make(chan struct{})
	n := 0
	done := make(chan struct{})
	go func() {
		defer close(done)
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-quit:
				return
			case <-t.C:
				n++
			}
		}
	}()
	nd.Advance(3500 * time.Millisecond)
	close(quit)
	<-done
	nd.Assert(n == 3, "ticker loop")
	runtime.Gosched()
	var rw sync.RWMutex
	m := map[int]int{}
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(2)
		go func(i int) { defer wg.Done(); rw.Lock(); m[i] = i; rw.Unlock() }(i)
		go func(i int) { defer wg.Done(); rw.RLock(); defer rw.RUnlock(); _ = m[i] }(i)
	}
	wg.Wait()
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	nd.Assert(len(ks) == 3 && ks[2] == 2, "map")
	of := sync.OnceValue(func() int { n++; return n })
	nd.Assert(of() == of(), "once value")
	x := rand.Intn(10)
	nd.Assert(x >= 0 && x < 10, "rand")
	fmt.Fprintln(os.Stderr, "a line")
	nd.Assert(strings.Contains(fmt.Sprint(types.Hash{1}), "01"), "hash prints")
	nd.Reach("end")
}
