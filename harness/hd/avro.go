package hd

import "verif/harness/nd"

// An independent decoder of the published schemas, written from the Avro
// specification.
type rd struct {
	b   []byte
	bad bool
}

func (r *rd) byte() byte {
	if len(r.b) == 0 {
		r.bad = true
		return 0
	}
	x := r.b[0]
	r.b = r.b[1:]
	return x
}

func (r *rd) long() int64 {
	var u uint64
	for s := uint(0); s < 64; s += 7 {
		x := r.byte()
		u |= uint64(x&0x7f) << s
		if x < 0x80 {
			return int64(u>>1) ^ -int64(u&1)
		}
	}
	r.bad = true
	return 0
}

func (r *rd) bytes() []byte {
	l := r.long()
	if l < 0 || l > int64(len(r.b)) {
		r.bad = true
		return nil
	}
	n := int(nd.Concrete(uint64(l)))
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) fixed(n int) []byte {
	if n > len(r.b) {
		r.bad = true
		return make([]byte, n)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

// blocks runs f for every element of an Avro map or array.
func (r *rd) blocks(f func()) {
	for !r.bad {
		n := r.long()
		if n == 0 {
			return
		}
		if n < 0 {
			r.long()
			n = -n
		}
		if n < 0 || n > int64(len(r.b)) { // an item takes a byte at least
			r.bad = true
			return
		}
		n = int64(nd.Concrete(uint64(n)))
		for i := int64(0); i < n && !r.bad; i++ {
			f()
		}
	}
}

type refUpdate struct {
	value    []byte
	count    int64
	delete   bool
	subbatch [32]byte
}

type refBatch struct {
	num     int64
	weight  []byte
	parent  [32]byte
	updates map[string]refUpdate
	keys    []string
}

func decodeBatch(b []byte) (*refBatch, bool) {
	r := &rd{b: b}
	x := readBatch(r)
	return x, !r.bad && len(r.b) == 0
}

// decodeBatchPrefix accepts data after the batch.
func decodeBatchPrefix(b []byte) (*refBatch, bool) {
	r := &rd{b: b}
	x := readBatch(r)
	return x, !r.bad
}

func readBatch(r *rd) *refBatch {
	x := &refBatch{updates: map[string]refUpdate{}}
	x.num = r.long()
	x.weight = r.bytes()
	copy(x.parent[:], r.fixed(32))
	r.blocks(func() {
		k := string(r.bytes())
		var u refUpdate
		u.value = r.bytes()
		u.count = r.long()
		u.delete = r.byte() == 1
		copy(u.subbatch[:], r.fixed(32))
		x.updates[k] = u
		x.keys = append(x.keys, k)
	})
	return x
}

type refItem struct {
	deletes []string
	updates map[string][]byte
}

func decodeItem(b []byte) (*refItem, bool) {
	r := &rd{b: b}
	x := readItem(r)
	return x, !r.bad && len(r.b) == 0
}

// decodeItemPrefix accepts data after the item.
func decodeItemPrefix(b []byte) (*refItem, bool) {
	r := &rd{b: b}
	x := readItem(r)
	return x, !r.bad
}

func readItem(r *rd) *refItem {
	x := &refItem{updates: map[string][]byte{}}
	r.blocks(func() { x.deletes = append(x.deletes, string(r.bytes())) })
	r.blocks(func() {
		k := string(r.bytes())
		x.updates[k] = r.bytes()
	})
	return x
}

func decodeInt(b []byte) (int64, bool) {
	r := &rd{b: b}
	x := r.long()
	return x, !r.bad && len(r.b) == 0
}

func decodeIntPrefix(b []byte) (int64, bool) {
	r := &rd{b: b}
	x := r.long()
	return x, !r.bad
}
