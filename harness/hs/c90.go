// Package hs holds harnesses that compare the executor with the Go runtime:
// code written in many styles, on symbolic inputs, against plain references.
package hs

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/big"
	"math/bits"
	"net/url"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/harness/nd"
)

func eq(a, b interface{}, what string) { nd.Assert(reflect.DeepEqual(a, b), what) }

// C90_strings: package strings on three arbitrary bytes out of a few.
func C90_strings() {
	s := nd.String("s", 3)
	for i := 0; i < len(s); i++ {
		nd.Assume(nd.Or(s[i] == 'a', s[i] == '/', s[i] == ' '))
	}
	parts := strings.Split(s, "/")
	nd.Assert(strings.Join(parts, "/") == s, "split join")
	nd.Assert(len(parts) == strings.Count(s, "/")+1, "count")
	if i := strings.Index(s, "/"); i >= 0 {
		a, b, ok := strings.Cut(s, "/")
		nd.Assert(ok && a == s[:i] && b == s[i+1:], "cut")
		nd.Assert(strings.IndexByte(s, '/') == i, "index byte")
		nd.Assert(strings.LastIndex(s, "/") >= i, "last index")
		p := strings.SplitN(s, "/", 2)
		nd.Assert(len(p) == 2 && p[0] == a && p[1] == b, "splitn")
		nd.Assert(strings.SplitAfterN(s, "/", 2)[0] == s[:i+1], "splitaftern")
	}
	nd.Assert(strings.HasPrefix(s, "a") == (s[0] == 'a'), "prefix")
	nd.Assert(strings.HasSuffix(s, "/") == (s[2] == '/'), "suffix")
	nd.Assert(strings.TrimSuffix(strings.TrimPrefix(s, "a"), "/") == strings.TrimPrefix(strings.TrimSuffix(s, "/"), "a") || s == "a" || s == "/", "trim prefix and suffix")
	nd.Assert(!strings.HasPrefix(strings.TrimSpace(s), " "), "trim space")
	nd.Assert(!strings.HasPrefix(strings.TrimLeft(s, "a/"), "a"), "trim left")
	nd.Assert(strings.Replace(s, "/", "//", -1) == strings.ReplaceAll(s, "/", "//"), "replace")
	nd.Assert(strings.ToUpper(s) == strings.Map(unicode.ToUpper, s), "map")
	nd.Assert(strings.EqualFold(s, strings.ToUpper(s)), "equal fold")
	nd.Assert(len(strings.Fields(s)) <= 2, "fields")
	nd.Assert(strings.Contains(s, "a/") == (strings.Index(s, "a/") >= 0), "contains")
	nd.Assert(strings.ContainsAny(s, "/ ") == (s != "aaa"), "contains any")
	nd.Assert(strings.ContainsRune(s, '/') == strings.Contains(s, "/"), "contains rune")
	nd.Assert(strings.Repeat(s, 2) == s+s, "repeat")
	nd.Assert(strings.Compare(s, "aaa") == bytes.Compare([]byte(s), []byte("aaa")), "compare")
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	b.WriteString("x")
	b.WriteByte('y')
	nd.Assert(b.String() == s+"xy" && b.Len() == 5, "builder")
	nd.Assert(strings.NewReplacer("a", "b", "/", ".").Replace("a/ ") == "b. ", "replacer")
	nd.Assert(strings.FieldsFunc("a,b;c", func(r rune) bool { return r == ',' || r == ';' })[2] == "c", "fields func")
	nd.Assert(strings.IndexFunc(s, func(r rune) bool { return r == '/' }) == strings.Index(s, "/"), "index func")
	nd.Assert(strings.TrimFunc(s, unicode.IsSpace) == strings.TrimSpace(s), "trim func")
	nd.Assert(strings.Trim(s, "a") == strings.TrimLeft(strings.TrimRight(s, "a"), "a"), "trim")
	nd.Assert(strings.Title("ab cd") == "Ab Cd", "title")
	r := strings.NewReader(s)
	x, err := io.ReadAll(r)
	nd.Assert(err == nil && string(x) == s, "reader")
	nd.Assert(path.Join("a", s) != "", "path")
	nd.Reach("end")
}

// C90_bytes: package bytes and byte slices.
func C90_bytes() {
	b := nd.Bytes("b", 4)
	c := append([]byte(nil), b...)
	nd.Assert(bytes.Equal(b, c), "equal")
	c[1]++
	nd.Assert(!bytes.Equal(b, c), "not equal")
	nd.Assert(bytes.Compare(b, c) == -bytes.Compare(c, b), "compare")
	d := make([]byte, 3, 8)
	n := copy(d, b)
	nd.Assert(n == 3 && d[2] == b[2], "copy")
	d = append(d, b[3:]...)
	nd.Assert(bytes.Equal(d, b), "append")
	nd.Assert(bytes.HasPrefix(b, b[:2]) && bytes.HasSuffix(b, b[2:]), "prefix")
	var buf bytes.Buffer
	buf.Write(b)
	buf.WriteByte(1)
	buf.WriteString("ab")
	nd.Assert(buf.Len() == 7 && bytes.Equal(buf.Bytes()[:4], b), "buffer")
	two := buf.Next(2)
	nd.Assert(bytes.Equal(two, b[:2]), "next")
	x, err := buf.ReadByte()
	nd.Assert(err == nil && x == b[2], "read byte")
	nd.Assert(bytes.Equal(bytes.Join([][]byte{b[:1], b[1:]}, nil), b), "join")
	nd.Assert(bytes.Equal(bytes.Repeat([]byte{b[0]}, 2), []byte{b[0], b[0]}), "repeat")
	nd.Assert(bytes.IndexByte(b, b[0]) == 0, "index byte")
	nd.Assert(len(bytes.TrimLeft([]byte{0, 0, 1}, "\x00")) == 1, "trim left")
	rd := bytes.NewReader(b)
	q := make([]byte, 2)
	_, err = io.ReadFull(rd, q)
	nd.Assert(err == nil && bytes.Equal(q, b[:2]), "reader")
	rest, _ := io.ReadAll(rd)
	nd.Assert(bytes.Equal(rest, b[2:]), "rest")
	h := [4]byte{}
	copy(h[:], b)
	m := map[[4]byte]int{h: 1}
	m[h]++
	nd.Assert(m[h] == 2, "array key")
	nd.Assert(string(b) == string(h[:]), "string")
	nd.Assert(hex.EncodeToString([]byte{0xab, 1}) == "ab01", "hex")
	z, err := hex.DecodeString(hex.EncodeToString(b))
	nd.Assert(err == nil && bytes.Equal(z, b), "hex round trip")
	nd.Reach("end")
}

// C90_binary: numbers in bytes.
func C90_binary() {
	x := nd.Uint64("x")
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], x)
	nd.Assert(binary.BigEndian.Uint64(b[:]) == x, "big endian")
	nd.Assert(binary.LittleEndian.Uint32(b[:4]) == bits.ReverseBytes32(uint32(x>>32)), "little endian")
	nd.Assert(bits.Len64(x) == 64-bits.LeadingZeros64(x), "len")
	v := binary.AppendUvarint(nil, x)
	y, n := binary.Uvarint(v)
	nd.Assert(y == x && n == len(v), "uvarint")
	w := make([]byte, 10)
	i := int64(x)
	n = binary.PutVarint(w, i)
	j, m := binary.Varint(w)
	nd.Assert(j == i && m == n, "varint")
	var buf bytes.Buffer
	nd.Assert(binary.Write(&buf, binary.BigEndian, x) == nil, "write")
	nd.Assert(bytes.Equal(buf.Bytes(), b[:]), "written")
	var z uint64
	nd.Assert(binary.Read(&buf, binary.BigEndian, &z) == nil && z == x, "read")
	k := new(big.Int).SetUint64(x)
	nd.Assert(new(big.Int).SetBytes(b[:]).Cmp(k) == 0, "big")
	nd.Assert(bits.TrailingZeros64(0) == 64 && bits.OnesCount8(3) == 2, "bits")
	nd.Assert(len(k.Bytes()) == (k.BitLen()+7)/8, "bytes")
	nd.Assert(math.MaxInt64 >= i && math.MinInt64 <= i, "range")
	nd.Assert(math.Floor(2.5) == 2 && math.Max(1, 2) == 2 && math.Ceil(1.2) == 2 && math.Abs(-1) == 1, "math")
	nd.Assert(int64(float64(len(v[:0])+7)/2) == 3, "float")
	nd.Reach("end")
}

// C90_big: big integers.
func C90_big() {
	a := new(big.Int).SetBytes(nd.Bytes("a", 10))
	b := big.NewInt(nd.Int64("b"))
	s := new(big.Int).Add(a, b)
	nd.Assert(new(big.Int).Sub(s, b).Cmp(a) == 0, "add sub")
	nd.Assert((a.Cmp(b) > 0) == (new(big.Int).Sub(a, b).Sign() > 0), "cmp")
	c := new(big.Int).Set(a)
	c.Lsh(c, 8)
	c.Rsh(c, 8)
	nd.Assert(c.Cmp(a) == 0, "shift")
	nd.Assert(new(big.Int).Neg(b).CmpAbs(b) == 0, "neg")
	if b.IsInt64() {
		nd.Assert(b.Int64() == new(big.Int).SetInt64(b.Int64()).Int64(), "int64")
	}
	f := make([]byte, 32)
	a.FillBytes(f)
	nd.Assert(new(big.Int).SetBytes(f).Cmp(a) == 0, "fill")
	t, ok := new(big.Int).SetString("123456789012345678901234567890", 10)
	nd.Assert(ok && t.String() == "123456789012345678901234567890", "string")
	nd.Assert(new(big.Int).Mul(big.NewInt(3), big.NewInt(4)).Int64() == 12, "mul")
	q, m := new(big.Int).DivMod(big.NewInt(17), big.NewInt(5), new(big.Int))
	nd.Assert(q.Int64() == 3 && m.Int64() == 2, "divmod")
	nd.Assert(t.Text(16) == "18ee90ff6c373e0ee4e3f0ad2", "text")
	nd.Assert(new(big.Int).Exp(big.NewInt(2), big.NewInt(256), nil).BitLen() == 257, "exp")
	nd.Reach("end")
}

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type intHeap []int64

func (h intHeap) Len() int            { return len(h) }
func (h intHeap) Less(i, j int) bool  { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x interface{}) { *h = append(*h, x.(int64)) }
func (h *intHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// C90_sort: sorting and containers.
func C90_sort() {
	x := []int64{nd.Int64("a"), nd.Int64("b"), nd.Int64("c")}
	y := append([]int64{}, x...)
	sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
	nd.Assert(y[0] <= y[1] && y[1] <= y[2], "sorted")
	var h intHeap
	for _, v := range x {
		heap.Push(&h, v)
	}
	for i := range y {
		nd.Assert(heap.Pop(&h).(int64) == y[i], "heap")
	}
	z := byLen{"ccc", "a", "bb"}
	sort.Sort(sort.Reverse(z))
	eq([]string(z), []string{"ccc", "bb", "a"}, "reverse")
	sort.Stable(z)
	nd.Assert(z[0] == "a" && sort.IsSorted(z), "stable")
	m := map[string]int{"x": 1, "z": 3, "y": 2}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	eq(ks, []string{"x", "y", "z"}, "keys")
	nd.Assert(sort.SearchStrings(ks, "y") == 1, "search")
	nd.Assert(sort.Search(3, func(i int) bool { return y[i] >= y[1] }) <= 1, "binary search")
	l := list.New()
	for _, v := range x {
		l.PushBack(v)
	}
	l.MoveToFront(l.Back())
	nd.Assert(l.Front().Value.(int64) == x[2] && l.Len() == 3, "list")
	l.Remove(l.Front())
	i := 0
	for e := l.Front(); e != nil; e = e.Next() {
		nd.Assert(e.Value.(int64) == x[i], "list order")
		i++
	}
	nd.Reach("end")
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my " + strconv.Itoa(e.n) }

var errBase = errors.New("base")

type stringer int

func (s stringer) String() string { return "s" + strconv.Itoa(int(s)) }

// C90_fmt: formatting and parsing.
func C90_fmt() {
	e := fmt.Errorf("wrapped %v: %w", 3, errBase)
	nd.Assert(errors.Is(e, errBase) && e.Error() == "wrapped 3: base" && errors.Unwrap(e) == errBase, "wrap")
	var me *myErr
	nd.Assert(errors.As(fmt.Errorf("x: %w", &myErr{4}), &me) && me.n == 4, "as")
	nd.Assert(fmt.Sprintf("%d %s %q %x %v %t %05d %+v %c %8.3f|%-4s|%T", 1, "a", "b", []byte{1, 0xab}, []int{1}, true, 42, struct{ A int }{1}, 'x', 1.5, "z", errBase) ==
		"1 a \"b\" 01ab [1] true 00042 {A:1} x    1.500|z   |*errors.errorString", "sprintf")
	nd.Assert(fmt.Sprint("a", 1, 2, "b") == "a1 2b", "sprint")
	nd.Assert(fmt.Sprintln("a", 1) == "a 1\n", "sprintln")
	nd.Assert(fmt.Sprintf("%v %s", stringer(3), stringer(4)) == "s3 s4", "stringer")
	nd.Assert(fmt.Sprintf("%#x %X %o %b", 255, 255, 8, 5) == "0xff FF 10 101", "radix")
	nd.Assert(fmt.Sprintf("%v %v", map[string]int{"b": 1, "a": 2}, (*int)(nil)) == "map[a:2 b:1] <nil>", "map")
	nd.Assert(fmt.Sprintf("%d%%", 5) == "5%", "percent")
	nd.Assert(fmt.Sprintf("%d", "x") == "%!d(string=x)", "bad verb")
	nd.Assert(fmt.Sprintf("%s", errBase) == "base", "error")
	x := nd.Uint32("x") & 0xfff
	s := strconv.FormatUint(uint64(x), 10)
	y, err := strconv.ParseUint(s, 10, 32)
	nd.Assert(err == nil && uint32(y) == x, "parse")
	nd.Assert(fmt.Sprintf("%x", []byte{byte(x)}) == hex.EncodeToString([]byte{byte(x)}), "hex")
	_, err = strconv.Atoi("12x")
	nd.Assert(err != nil && errors.Is(err, strconv.ErrSyntax), "syntax")
	_, err = strconv.ParseInt("999", 10, 8)
	nd.Assert(errors.Is(err, strconv.ErrRange), "range")
	b, err := strconv.ParseBool("true")
	nd.Assert(b && err == nil, "bool")
	f, err := strconv.ParseFloat("1.5", 64)
	nd.Assert(f == 1.5 && err == nil, "float")
	nd.Assert(strconv.Quote("a\n") == "\"a\\n\"", "quote")
	nd.Assert(string(strconv.AppendInt(nil, -5, 10)) == "-5", "append")
	var n int
	var w string
	k, err := fmt.Sscanf("7 abc", "%d %s", &n, &w)
	nd.Assert(k == 2 && err == nil && n == 7 && w == "abc", "sscanf")
	nd.Reach("end")
}

// C90_utf8: runes.
func C90_utf8() {
	s := "aé世"
	n := 0
	for range s {
		n++
	}
	nd.Assert(n == 3 && utf8.RuneCountInString(s) == 3 && len([]rune(s)) == 3, "count")
	b := nd.Byte("b")
	t := string([]byte{b})
	nd.Assert(utf8.ValidString(t) == (b < 128), "valid")
	r, w := utf8.DecodeRuneInString(t)
	nd.Assert(w == 1 && (r == rune(b)) == (b < 128), "decode")
	nd.Assert(unicode.IsLetter('x') && unicode.IsDigit('1') && !unicode.IsUpper('x'), "unicode")
	nd.Reach("end")
}

// C90_url: URLs and patterns.
func C90_url() {
	u, err := url.Parse("kafka://u:p@h:1,h2:2/x?a=1&b=2#f")
	nd.Assert(err == nil && u.Scheme == "kafka" && u.Host == "h:1,h2:2" && u.Path == "/x" && u.RawQuery == "a=1&b=2" && u.Fragment == "f", "parse")
	p, ok := u.User.Password()
	nd.Assert(ok && p == "p" && u.User.Username() == "u", "user")
	nd.Assert(u.Query().Get("b") == "2" && len(u.Query()) == 2, "query")
	v := url.Values{}
	v.Set("q", "a b")
	nd.Assert(v.Encode() == "q=a+b", "encode")
	r := regexp.MustCompile("^(a|bc)+/")
	nd.Assert(r.MatchString("abca/") && !r.MatchString("xa/"), "match")
	nd.Assert(r.FindString("bca/z") == "bca/", "find")
	nd.Assert(r.FindStringIndex("bca/z")[1] == 4, "index")
	nd.Assert(regexp.QuoteMeta("a.b") == "a\\.b", "quote")
	s := nd.String("s", 3)
	nd.Assume(s[0] < 128 && s[1] < 128 && s[2] < 128)
	nd.Assert(regexp.MustCompile("^ab?").MatchString(s) == (s[0] == 'a'), "symbolic match")
	nd.Reach("end")
}

type node struct {
	name string
	kids map[string]*node
	any  interface{}
}

// C90_reflect: deep comparison, interfaces, closures, defer, generics.
func C90_lang() {
	a := &node{"a", map[string]*node{"b": {name: "b", any: []int{1}}}, nil}
	b := &node{"a", map[string]*node{"b": {name: "b", any: []int{1}}}, nil}
	nd.Assert(reflect.DeepEqual(a, b), "deep equal")
	b.kids["b"].any = []int{2}
	nd.Assert(!reflect.DeepEqual(a, b), "deep different")
	f := func() (r int) {
		defer func() {
			if x := recover(); x != nil {
				r = x.(int)
			}
		}()
		for i := 0; ; i++ {
			defer func() { r++ }()
			if i == 2 {
				panic(7)
			}
		}
	}
	nd.Assert(f() == 7, "recover")
	g := func() (err error) {
		defer func() {
			if x := recover(); x != nil {
				err = x.(error)
			}
		}()
		var m map[string]int
		m["a"] = 1
		return nil
	}
	nd.Assert(g() != nil && strings.Contains(g().Error(), "nil map"), "nil map")
	idx := nd.Choose("i", 4)
	h := func() (ok bool) {
		defer func() { ok = recover() == nil }()
		x := []int{1, 2, 3}
		x[idx]++
		return
	}
	nd.Assert(h() == (idx < 3), "bounds")
	var sum int
	for _, fn := range []func(){func() { sum += 1 }, func() { sum += 10 }} {
		fn()
	}
	nd.Assert(sum == 11, "closures")
	switch x := a.any.(type) {
	case nil:
		nd.Reach("nil")
	case int:
		nd.Assert(x == 0, "not an int")
	}
	var e error = &myErr{1}
	if m, ok := e.(*myErr); ok && m.n == 1 {
		nd.Reach("assertion")
	}
	arr := [3]int{1, 2, 3}
	brr := arr
	brr[0] = 9
	nd.Assert(arr[0] == 1 && arr != brr, "arrays are values")
	s := arr[:]
	t := s[1:2:2]
	t = append(t, 5)
	nd.Assert(arr[2] == 3 && t[1] == 5 && cap(s[1:2:2]) == 1, "full slice")
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if j == 1 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			sum += 100
		}
	}
	nd.Assert(sum == 211, "labels")
	if sum == 0 {
		goto done
	}
	sum = 0
done:
	nd.Assert(sum == 0, "goto")
	type pair struct {
		a int
		b string
	}
	m := map[pair][]int{}
	m[pair{1, "x"}] = append(m[pair{1, "x"}], 3)
	nd.Assert(len(m[pair{1, "x"}]) == 1 && m[pair{2, "x"}] == nil, "struct keys")
	delete(m, pair{1, "x"})
	nd.Assert(len(m) == 0, "delete")
	k := map[interface{}]int{1: 1, "1": 2, pair{}: 3}
	nd.Assert(k[1] == 1 && k["1"] == 2 && k[pair{}] == 3, "interface keys")
	var i8 int8 = 127
	i8++
	nd.Assert(i8 == -128, "overflow")
	nd.Assert(-7/2 == -3 && -7%2 == -1 && 7&^2 == 5, "division")
	x := nd.Int64("x")
	nd.Assert(x>>1<<1 == x&^1, "shift")
	nd.Assert(min(3, 4) == 3 && max(int64(1), 2) == 2, "min max")
	clear(k)
	nd.Assert(len(k) == 0, "clear")
	mv := stringer.String
	nd.Assert(mv(3) == "s3" && (&myErr{2}).Error() == "my 2", "method values")
}

// C90_sync: goroutines and synchronisation.
func C90_sync() {
	var mu sync.RWMutex
	var wg sync.WaitGroup
	n := 0
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			n++
		}()
	}
	wg.Wait()
	mu.RLock()
	nd.Assert(n == 3, "mutex")
	mu.RUnlock()
	nd.Assert(mu.TryLock(), "try lock")
	mu.Unlock()
	var c int64
	atomic.AddInt64(&c, 2)
	nd.Assert(atomic.CompareAndSwapInt64(&c, 2, 5) && atomic.LoadInt64(&c) == 5 && atomic.SwapInt64(&c, 1) == 5, "atomic")
	var ai atomic.Int32
	ai.Store(3)
	nd.Assert(ai.Add(2) == 5 && ai.Load() == 5, "atomic type")
	var ab atomic.Bool
	ab.Store(true)
	nd.Assert(ab.Load() && ab.CompareAndSwap(true, false), "atomic bool")
	var av atomic.Value
	nd.Assert(av.Load() == nil, "atomic value")
	av.Store("x")
	nd.Assert(av.Load().(string) == "x", "atomic value")
	var u32 uint32
	atomic.StoreUint32(&u32, 7)
	nd.Assert(atomic.AddUint32(&u32, ^uint32(0)) == 6, "atomic sub")
	var once sync.Once
	for i := 0; i < 2; i++ {
		once.Do(func() { n++ })
	}
	nd.Assert(n == 4, "once")
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	nd.Assert(ok && v.(int) == 1, "sync map")
	v, loaded := m.LoadOrStore("a", 2)
	nd.Assert(loaded && v.(int) == 1, "load or store")
	m.Store("b", 2)
	k := 0
	m.Range(func(a, b interface{}) bool { k += b.(int); return true })
	nd.Assert(k == 3, "range")
	m.Delete("a")
	_, ok = m.LoadAndDelete("b")
	nd.Assert(ok, "load and delete")
	_, ok = m.Load("b")
	nd.Assert(!ok, "deleted")
	p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("x")
	b.Reset()
	p.Put(b)
	cond := sync.NewCond(&sync.Mutex{})
	ready := false
	go func() {
		cond.L.Lock()
		ready = true
		cond.L.Unlock()
		cond.Broadcast()
	}()
	cond.L.Lock()
	for !ready {
		cond.Wait()
	}
	cond.L.Unlock()
	nd.Reach("end")
}

// C90_chan: channels.
func C90_chan() {
	c := make(chan int, 2)
	c <- 1
	c <- 2
	select {
	case c <- 3:
		nd.Assert(false, "full")
	default:
	}
	nd.Assert(len(c) == 2 && cap(c) == 2, "len")
	close(c)
	sum := 0
	for x := range c {
		sum += x
	}
	nd.Assert(sum == 3, "range")
	_, ok := <-c
	nd.Assert(!ok, "closed")
	d := make(chan chan int)
	go func() { r := <-d; r <- 5; close(r) }()
	r := make(chan int)
	d <- r
	nd.Assert(<-r == 5, "reply")
	var nilc chan int
	select {
	case <-nilc:
		nd.Assert(false, "nil channel")
	case x, ok := <-r:
		nd.Assert(x == 0 && !ok, "closed reply")
	}
	func() {
		defer func() { nd.Assert(recover() != nil, "send on closed") }()
		c <- 1
	}()
	nd.Reach("end")
}

// C90_time: timers and contexts.
func C90_time() {
	t0 := time.Now()
	select {
	case <-time.After(time.Second):
	case <-time.After(2 * time.Second):
		nd.Assert(false, "later one first")
	}
	nd.Assert(time.Since(t0) == time.Second, "since")
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	<-ctx.Done()
	nd.Assert(errors.Is(ctx.Err(), context.DeadlineExceeded), "deadline")
	cancel()
	ctx, cancel = context.WithCancel(context.WithValue(context.Background(), "k", 3))
	go func() { time.Sleep(time.Second); cancel() }()
	<-ctx.Done()
	nd.Assert(ctx.Err() == context.Canceled && ctx.Value("k").(int) == 3, "cancel")
	tm := time.NewTimer(time.Second)
	nd.Assert(tm.Stop(), "stop")
	tm.Reset(time.Minute)
	<-tm.C
	done := make(chan struct{})
	time.AfterFunc(time.Second, func() { close(done) })
	<-done
	tk := time.NewTicker(time.Second)
	<-tk.C
	<-tk.C
	tk.Stop()
	nd.Assert(time.Since(t0) == 66*time.Second, "total")
	nd.Assert(t0.Add(time.Minute).After(t0) && t0.Add(time.Hour).Sub(t0).Minutes() == 60 && t0.Before(time.Now()) && !t0.IsZero(), "arithmetic")
	nd.Assert(time.Unix(3, 5).UnixNano() == 3000000005 && time.Unix(3, 0).Unix() == 3, "unix")
	nd.Assert((1500*time.Millisecond).String() == "1.5s" && (90*time.Second).Seconds() == 90, "duration")
	d, err := time.ParseDuration("1m30s")
	nd.Assert(err == nil && d == 90*time.Second, "parse duration")
	nd.Assert(time.Until(t0) < 0 && t0.Equal(t0.Add(0)) && time.Time{}.IsZero(), "until")
	nd.Assert(t0.Truncate(time.Hour).Sub(t0) <= 0, "truncate")
	nd.Reach("end")
}

// C90_io: readers and hashes.
func C90_io() {
	sc := bufio.NewScanner(strings.NewReader("a\nbb\n"))
	var l []string
	for sc.Scan() {
		l = append(l, sc.Text())
	}
	eq(l, []string{"a", "bb"}, "scanner")
	w := bufio.NewWriter(io.Discard)
	fmt.Fprintf(w, "x%d", 1)
	w.Flush()
	var b bytes.Buffer
	fmt.Fprintf(&b, "x%d", 1)
	n, err := io.Copy(&b, strings.NewReader("yz"))
	nd.Assert(n == 2 && err == nil && b.String() == "x1yz", "copy")
	h := fnv.New32a()
	h.Write([]byte("a"))
	nd.Assert(h.Sum32() == 0xe40c292c, "fnv")
	_, err = b.ReadString('q')
	nd.Assert(err == io.EOF, "eof")
	nd.Reach("end")
}
