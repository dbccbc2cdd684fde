package checks

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"

	"verifharness/mon"
)

func init() {
	Reg["P06"] = p06
	Reg["P07"] = p07
	Reg["P08"] = p08
	Reg["P09"] = p09
}

// cmsg identifies a message being reassembled.
type cmsg struct {
	mo   bool // SUBMIT, else DELIVER
	toa  byte
	addr string
	ref  int
	segs int
}

func (m cmsg) String() string {
	n := "deliver"
	if m.mo {
		n = "submit"
	}
	return fmt.Sprintf("%s %02x/%q ref %d of %d", n, m.toa, m.addr, m.ref, m.segs)
}

const idMagic = 0xA7

// The wide form is determined by the reference, as a Collector need not
// distinguish 8 and 16 bit references of the same value.
func wideRef(n int) bool { return n > 255 || n%2 == 1 }

// buildSeg builds a segment with the concatenation element for (segs, seq,
// ref), identifiable by id.
func buildSeg(r *mon.Rng, m cmsg, seq, id int) tpdu.TPDU {
	var t tpdu.TPDU
	a := tpdu.Address{TOA: m.toa, Addr: m.addr}
	if m.mo {
		t.Direction = tpdu.MO
		t.FirstOctet = 0x41
		t.DA = a
		t.MR = byte(r.IntN(256))
	} else {
		t.FirstOctet = 0x40
		t.OA = a
		t.SCTS = stampTime(genStamp(r))
	}
	t.FirstOctet |= tpdu.FirstOctet(r.IntN(2) << 5)
	if r.P(1, 6) { // nor do flags, or fields of other types, tell messages apart
		t.FirstOctet |= tpdu.FirstOctet(r.IntN(256)) & 0x84
		x := tpdu.Address{TOA: pick(r, []byte{0x91, 0x81, 0xd0}), Addr: genNumber(r)}
		t.RA = x
		if m.mo {
			t.OA = x
		} else {
			t.DA = x
			t.MR = byte(r.IntN(256))
		}
	}
	t.PID = byte(r.IntN(2))
	t.DCS = tpdu.DCS(pick(r, []int{0, 0, 4, 8}))
	ie := tpdu.InformationElement{ID: 0, Data: []byte{byte(m.ref), byte(m.segs), byte(seq)}}
	if wideRef(m.ref) {
		ie = tpdu.InformationElement{ID: 8, Data: []byte{byte(m.ref >> 8), byte(m.ref), byte(m.segs), byte(seq)}}
	}
	t.UDH = tpdu.UserDataHeader{ie}
	var idb [5]byte
	idb[0] = idMagic
	binary.BigEndian.PutUint32(idb[1:], uint32(id))
	if r.P(1, 4) {
		tag := tpdu.InformationElement{ID: 0x70, Data: idb[:]}
		if r.P(1, 2) {
			t.UDH = append(t.UDH, tag)
		} else {
			t.UDH = append(tpdu.UserDataHeader{tag}, t.UDH...)
		}
		t.UD = r.Bytes(r.IntN(3))
		if len(t.UD) == 0 && r.P(1, 2) {
			t.UD = nil
		}
	} else {
		t.UD = append(idb[:], r.Bytes(r.IntN(6))...)
	}
	return t
}

// segID identifies a segment.
func segID(t *tpdu.TPDU) int {
	if t == nil {
		return -1
	}
	for _, ie := range t.UDH {
		if ie.ID == 0x70 && len(ie.Data) == 5 && ie.Data[0] == idMagic {
			return int(binary.BigEndian.Uint32(ie.Data[1:]))
		}
	}
	if len(t.UD) >= 5 && t.UD[0] == idMagic {
		return int(binary.BigEndian.Uint32(t.UD[1:]))
	}
	return -2
}

func segIDs(p []*tpdu.TPDU) []int {
	ids := make([]int, len(p))
	for i := range p {
		ids[i] = segID(p[i])
	}
	return ids
}

// genKeys generates messages which are nearly the same.
func genKeys(r *mon.Rng, n int) []cmsg {
	base := cmsg{r.P(1, 2), pick(r, []byte{0x91, 0x81, 0xa1}), genNumber(r), pick(r, []int{1, 2, 255, 4, 256, r.IntN(256), r.IntN(65536)}), r.Range(2, 5)}
	if r.P(1, 6) {
		base.toa = 0xd0
		base.addr = pick(r, []string{"Alpha", "1:2", "a:1:2", "%d", "", ":", "A B"})
	}
	if r.P(1, 5) { // a long address
		n := pick(r, []int{20, 21, 22, 24, 30, 40, 64, 100, 200, 250})
		if base.toa == 0xd0 {
			base.addr = strings.Repeat("Abc 12 ", n)[:min(n, 140)]
		} else {
			base.addr = genDigits(r, n)
		}
	}
	if r.P(1, 12) {
		base.segs = pick(r, []int{16, 64, 254, 255})
	}
	keys := []cmsg{base}
	have := map[cmsg]bool{base: true}
	for tries := 0; len(keys) < n && tries < 200; tries++ {
		m := pick(r, keys)
		switch r.IntN(12) {
		case 9, 10: // an address with a character changed, inserted or removed
			set := "0123456789*#abc"
			if m.toa&0x70 == 0x50 {
				set = " .,:%@aAzZ09-+"
			}
			a := []byte(m.addr)
			i := r.IntN(len(a) + 1)
			ch := set[r.IntN(len(set))]
			switch x := r.IntN(3); {
			case x == 0 && i < len(a):
				a[i] = ch
			case x == 1 && len(a) > 1 && i < len(a):
				a = append(a[:i], a[i+1:]...)
			default:
				a = append(a[:i], append([]byte{ch}, a[i:]...)...)
			}
			m.addr = string(a)
		case 11:
			switch {
			case m.toa&0x70 != 0x50:
				m.addr += pick(r, []string{"0", "*", "#", "a", "c"})
			case strings.ToUpper(m.addr) != m.addr && r.P(1, 2):
				m.addr = strings.ToUpper(m.addr)
			case strings.ToLower(m.addr) != m.addr:
				m.addr = strings.ToLower(m.addr)
			default:
				m.addr += pick(r, []string{" ", "a", "\n", "@", "é"})
			}
		case 0:
			m.mo = !m.mo
		case 1:
			if r.P(1, 2) { // another plan
				m.toa ^= pick(r, []byte{1, 2, 4, 8, 0x80, 0x80})
			} else {
				m.toa = pick(r, []byte{0x91, 0x81, 0xa1, 0xd0, 0xc8})
			}
		case 2:
			if len(m.addr) > 1 {
				m.addr = m.addr[:len(m.addr)-1]
			} else {
				m.addr += "1"
			}
		case 3:
			if m.toa&0x70 == 0x50 {
				m.addr += pick(r, []string{":1", "0", ":"})
			} else {
				m.addr = pick(r, []string{"0", "1", "*", "#"}) + m.addr
			}
		case 4:
			m.ref = (m.ref + 256) & 0xffff
		case 5:
			m.ref = (m.ref + pick(r, []int{1, 2, 10, 16, 128})) & 0xffff
		case 6:
			m.segs = pick(r, []int{2, 3, 4, 5, 6, m.segs + 1})
			if m.segs > 255 {
				m.segs = 2
			}
		case 7:
			m.ref = m.ref & 0xff
		case 8:
			m.ref, m.segs = m.segs, max(2, m.ref&0xff)
			if m.segs > 12 && r.P(7, 8) {
				m.segs = 12
			}
		}
		if !have[m] {
			have[m] = true
			keys = append(keys, m)
		}
	}
	return keys
}

// crowd generates many unrelated messages.
func crowd(r *mon.Rng, n int) []cmsg {
	have := map[cmsg]bool{}
	var keys []cmsg
	addrs := make([]string, 1+n/r.Range(1, 40))
	for i := range addrs {
		addrs[i] = genNumber(r)
	}
	for len(keys) < n {
		m := cmsg{r.P(1, 2), pick(r, []byte{0x91, 0x81}), pick(r, addrs), r.IntN(65536), r.Range(2, 4)}
		if !have[m] {
			have[m] = true
			keys = append(keys, m)
		}
	}
	return keys
}

// feedCrowd feeds all but a proportion of the segments of the messages, in
// random order.
func (s *collSim) feedCrowd(skip int) {
	type seg struct {
		m cmsg
		q int
	}
	var segs []seg
	for _, m := range s.keys {
		for q := 1; q <= m.segs; q++ {
			if s.r.IntN(100) >= skip {
				segs = append(segs, seg{m, q})
			}
		}
	}
	for _, i := range s.r.Perm(len(segs)) {
		if s.bad {
			return
		}
		s.feed(segs[i].m, segs[i].q)
		if s.timed && s.r.IntN(200) == 0 {
			s.advance(s.d / time.Duration(s.r.Range(2, 50)))
		}
	}
	if !s.bad {
		s.checkPipes("at the end")
	}
}

// limited limits the number of segments of the messages, keeping them distinct.
func limited(keys []cmsg, n int) []cmsg {
	have := map[cmsg]bool{}
	var o []cmsg
	for _, m := range keys {
		m.segs = min(m.segs, n)
		if !have[m] {
			have[m] = true
			o = append(o, m)
		}
	}
	return o
}

type simPipe struct {
	slots    []int // ids, 0 if missing
	n        int
	deadline time.Time
}

func slotString(ids []int) string {
	b := []byte{'['}
	for i, x := range ids {
		if i > 0 {
			b = append(b, ' ')
		}
		b = strconv.AppendInt(b, int64(x), 10)
	}
	return string(append(b, ']'))
}

func ints(ids []int) []int { // missing as the monitor reports them
	o := make([]int, len(ids))
	for i, x := range ids {
		o[i] = x
		if x == 0 {
			o[i] = -1
		}
	}
	return o
}

type expiry struct {
	slots string
	at    time.Time
}

type held struct {
	what  string
	slice []*tpdu.TPDU
	want  []int
}

type heldMap struct {
	m    map[string][]*tpdu.TPDU
	want string
	n    int
}

type heldExp struct {
	slice []*tpdu.TPDU
	want  string
}

// collSim drives a Collector and its model.
type collSim struct {
	k       *mon.Case
	r       *mon.Rng
	c       *sms.Collector
	d       time.Duration
	handler bool
	timed   bool
	pipes   map[cmsg]*simPipe
	done    map[cmsg]bool
	sent    map[int]*tpdu.TPDU
	next    int
	closed  bool
	keys    []cmsg
	heldS   []held
	heldM   []heldMap
	keep    bool // hold, and later verify, what is returned
	scrub   bool // overwrite what is returned
	trace   []string
	bad     bool

	mu      sync.Mutex
	expired []expiry
	heldE   []heldExp
	malf    []string
	onExp   func([]*tpdu.TPDU)
}

func newSim(k *mon.Case, r *mon.Rng, keys []cmsg, d time.Duration, handler bool) *collSim {
	s := &collSim{k: k, r: r, d: d, handler: handler, keys: keys, pipes: map[cmsg]*simPipe{}, sent: map[int]*tpdu.TPDU{}, next: 1, done: map[cmsg]bool{}}
	var opts []sms.CollectorOption
	if r.P(1, 6) && d != 0 { // superseded
		opts = append(opts, sms.WithReassemblyTimeout(pick(r, []time.Duration{0, d/3 + 1, d + 1, 3*d + time.Second}), func([]*tpdu.TPDU) { s.oops("the superseded handler was called") }))
	}
	if d != 0 || r.P(1, 2) {
		var h func([]*tpdu.TPDU)
		if handler {
			h = s.onExpiry
		}
		opts = append(opts, sms.WithReassemblyTimeout(d, h))
	}
	s.c = sms.NewCollector(opts...)
	return s
}

func (s *collSim) oops(f string, a ...any) {
	s.mu.Lock()
	s.malf = append(s.malf, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *collSim) onExpiry(p []*tpdu.TPDU) {
	at := time.Now()
	ids := segIDs(p)
	s.mu.Lock()
	s.expired = append(s.expired, expiry{slotString(ids), at})
	s.mu.Unlock()
	for i := range p {
		if p[i] != nil {
			s.mu.Lock()
			w := s.sent[ids[i]]
			s.mu.Unlock()
			if w == nil {
				s.oops("expired segment %d was not accepted", i)
			} else if d := same(w, p[i]); d != "" {
				s.oops("expired segment %d is altered: %s", i, d)
			}
		}
	}
	if s.onExp != nil {
		s.onExp(p)
	}
	if s.keep {
		now := slotString(segIDs(p))
		s.mu.Lock()
		s.heldE = append(s.heldE, heldExp{p, now})
		s.mu.Unlock()
	}
}

func (s *collSim) fail(key, f string, a ...any) {
	s.bad = true
	t := s.trace
	if len(t) > 60 {
		t = t[len(t)-60:]
	}
	s.k.Reset()
	s.k.Input("timeout", s.d, "handler", s.handler, "steps", strings.Join(t, "\n    "))
	s.k.Fail(key, f, a...)
}

func (s *collSim) log(f string, a ...any) { s.trace = append(s.trace, fmt.Sprintf(f, a...)) }

// contents checks a set returned against the model.
func (s *collSim) contents(what string, p []*tpdu.TPDU, want []int) {
	got := segIDs(p)
	if slotString(got) != slotString(ints(want)) {
		s.fail("contents", "%s: segments %v, want %v", what, got, ints(want))
		return
	}
	for i, t := range p {
		if t == nil {
			continue
		}
		if d := same(s.sent[want[i]], t); d != "" {
			s.fail("altered", "%s: segment %d is altered: %s", what, i, d)
			return
		}
	}
}

// feed feeds one segment and checks the outcome.
func (s *collSim) feed(m cmsg, seq int) {
	id := s.next
	s.next++
	t := buildSeg(s.r, m, seq, id)
	cl := cloneTPDU(&t)
	s.mu.Lock()
	s.sent[id] = cl
	s.mu.Unlock()
	s.k.C.Beat()
	got, err := s.c.Collect(t)
	t = tpdu.TPDU{} // the caller reuses its variable
	s.log("%v: segment %d (id %d) -> %v %v", m, seq, id, segIDs(got), err)
	s.k.C.Count("collected", 1)
	switch {
	case s.closed:
		if !errors.Is(err, sms.ErrClosed) || got != nil {
			s.fail("closed", "closed collector returned %v, %v", segIDs(got), err)
		}
		s.k.C.Count("rejected_closed", 1)
		return
	case m.segs < 2:
		s.immediate(got, err, id)
		return
	case seq < 1 || seq > m.segs:
		if !errors.Is(err, sms.ErrReassemblyInconsistency) || got != nil {
			s.fail("inconsistent", "segment %d of %d returned %v, %v", seq, m.segs, segIDs(got), err)
		}
		s.k.C.Count("rejected_inconsistent", 1)
		return
	}
	p := s.pipes[m]
	if p != nil && p.slots[seq-1] != 0 {
		if !errors.Is(err, sms.ErrDuplicateSegment) || got != nil {
			s.fail("duplicate", "duplicate segment %d of %v returned %v, %v", seq, m, segIDs(got), err)
		}
		s.k.C.Count("rejected_duplicate", 1)
		return
	}
	if err != nil {
		s.fail("rejected", "segment %d of %v rejected: %v", seq, m, err)
		return
	}
	if p == nil {
		p = &simPipe{slots: make([]int, m.segs)}
		s.pipes[m] = p
	}
	p.slots[seq-1] = id
	p.n++
	if p.n == m.segs {
		delete(s.pipes, m)
		if got == nil {
			s.fail("incomplete", "final segment %d of %v did not complete it", seq, m)
			return
		}
		s.contents("completed "+m.String(), got, p.slots)
		s.hold("set returned by Collect", got, p.slots)
		s.k.C.Count("completed", 1)
		s.k.C.Count("completed_segments", int64(m.segs))
		return
	}
	if got != nil {
		s.fail("premature", "segment %d of %v returned %v with %d missing", seq, m, segIDs(got), m.segs-p.n)
		return
	}
	if s.d != 0 && s.timed {
		p.deadline = time.Now().Add(s.d)
	}
}

func (s *collSim) hold(what string, p []*tpdu.TPDU, want []int) {
	if s.scrub && s.r.P(1, 2) {
		for i := range p {
			p[i] = nil
		}
		if s.keep {
			s.mu.Lock()
			s.heldE = append(s.heldE, heldExp{p, slotString(segIDs(p))})
			s.mu.Unlock()
		}
		p = append(p, nil, nil)
		_ = p
		return
	}
	if s.keep {
		s.heldS = append(s.heldS, held{what, p, append([]int(nil), want...)})
	}
}

func (s *collSim) immediate(got []*tpdu.TPDU, err error, id int) {
	s.k.C.Count("immediate", 1)
	if err != nil || len(got) != 1 || segID(got[0]) != id {
		s.fail("immediate", "a segment complete in itself returned %v, %v", segIDs(got), err)
		return
	}
	if d := same(s.sent[id], got[0]); d != "" {
		s.fail("immediate", "a segment complete in itself is altered: %s", d)
		return
	}
	s.hold("single returned by Collect", got, []int{id})
}

// single feeds a TPDU which is not part of a concatenation.
func (s *collSim) single() {
	r := s.r
	id := s.next
	s.next++
	m := pick(r, s.keys)
	t := buildSeg(r, m, 1, id)
	t.UD = binary.BigEndian.AppendUint32([]byte{idMagic}, uint32(id))
	switch r.IntN(4) {
	case 0: // header without concatenation
		t.UDH = tpdu.UserDataHeader{{ID: 0x71, Data: []byte{byte(m.ref), byte(m.segs), 1}}}
	case 1: // malformed concatenation elements are not concatenation elements
		t.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{byte(m.ref), byte(m.segs)}}, {ID: 8, Data: []byte{0, byte(m.segs), 1}}}
	default:
		t.UDH = nil
		t.FirstOctet &^= 0x40
	}
	if r.P(1, 4) { // any type
		setKind(&t, r.IntN(6))
	}
	s.sent[id] = cloneTPDU(&t)
	got, err := s.c.Collect(t)
	s.log("single (id %d) -> %v %v", id, segIDs(got), err)
	if s.closed {
		if !errors.Is(err, sms.ErrClosed) || got != nil {
			s.fail("closed", "closed collector returned %v, %v", segIDs(got), err)
		}
		return
	}
	s.immediate(got, err, id)
}

// unsupported feeds a segment of a type which cannot be reassembled.
func (s *collSim) unsupported() {
	r := s.r
	id := s.next
	s.next++
	m := pick(r, s.keys)
	t := buildSeg(r, m, r.Range(1, m.segs), id)
	t.OA, t.DA = tpdu.Address{TOA: m.toa, Addr: m.addr}, tpdu.Address{TOA: m.toa, Addr: m.addr}
	for {
		setKind(&t, r.IntN(6))
		if st := t.SmsType(); st != tpdu.SmsDeliver && st != tpdu.SmsSubmit {
			break
		}
	}
	got, err := s.c.Collect(t)
	s.log("%v segment (id %d) -> %v %v", t.SmsType(), id, segIDs(got), err)
	s.k.C.Count("rejected_unsupported", 1)
	if s.closed {
		if !errors.Is(err, sms.ErrClosed) || got != nil {
			s.fail("closed", "closed collector returned %v, %v", segIDs(got), err)
		}
		return
	}
	var u tpdu.ErrUnsupportedSmsType
	if !errors.As(err, &u) || got != nil {
		s.fail("unsupported", "%v segment returned %v, %v", t.SmsType(), segIDs(got), err)
	}
}

func (s *collSim) modelPipes() string {
	var o []string
	for _, p := range s.pipes {
		o = append(o, slotString(ints(p.slots)))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func pipesString(m map[string][]*tpdu.TPDU) string {
	var o []string
	for _, p := range m {
		o = append(o, slotString(segIDs(p)))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

// checkPipes compares the snapshot with the model.
func (s *collSim) checkPipes(what string) {
	m := s.c.Pipes()
	s.k.C.Count("snapshots", 1)
	want := s.modelPipes()
	if got := pipesString(m); got != want {
		s.fail("pipes", "%s: pipes hold %s, want %s", what, got, want)
		return
	}
	for _, p := range m {
		for i, t := range p {
			if t == nil {
				continue
			}
			if d := same(s.sent[segID(t)], t); d != "" {
				s.fail("altered", "%s: pipe segment %d is altered: %s", what, i, d)
				return
			}
		}
	}
	if s.scrub && s.r.P(1, 2) { // the snapshot is the caller's to modify
		for _, p := range m {
			_ = append(p, &tpdu.TPDU{})
		}
		if got := pipesString(m); got != want {
			s.fail("snapshot", "adding to the sets of a snapshot altered others: it holds %s, want %s", got, want)
		}
		for key, p := range m {
			for i := range p {
				p[i] = nil
			}
			switch s.r.IntN(3) {
			case 0:
				delete(m, key)
			case 1:
				m[key] = append(p, nil)
			}
		}
		m["other"] = []*tpdu.TPDU{nil}
		if got := pipesString(s.c.Pipes()); got != want {
			s.fail("snapshot", "modifying the snapshot altered the collector: pipes hold %s, want %s", got, want)
		}
	} else if s.keep {
		s.heldM = append(s.heldM, heldMap{m, want, len(m)})
	}
}

// checkHeld verifies that what was returned remains as it was.
func (s *collSim) checkHeld() {
	for _, h := range s.heldS {
		s.contents("later, "+h.what, h.slice, h.want)
	}
	for _, h := range s.heldM {
		if got := pipesString(h.m); got != h.want || len(h.m) != h.n {
			s.fail("snapshot", "an earlier snapshot now holds %s, it held %s", got, h.want)
		}
	}
	s.mu.Lock()
	heldE := s.heldE
	if n := len(heldE); n > 30 {
		s.heldE = append([]heldExp(nil), heldE[n-30:]...)
	}
	s.mu.Unlock()
	for _, h := range heldE {
		if got := slotString(segIDs(h.slice)); got != h.want {
			s.fail("expired-altered", "a set handed over now holds %s, it was left holding %s", got, h.want)
			break
		}
		for _, t := range h.slice {
			if t == nil {
				continue
			}
			s.mu.Lock()
			w := s.sent[segID(t)]
			s.mu.Unlock()
			if d := same(w, t); d != "" {
				s.fail("expired-altered", "a segment of an expired set is altered: %s", d)
				break
			}
		}
	}
	s.k.C.Count("held", int64(len(s.heldS)+len(s.heldM)+len(heldE)))
	if n := len(s.heldS); n > 30 {
		s.heldS = append([]held(nil), s.heldS[n-30:]...)
	}
	s.heldM = nil
}

// advance moves virtual time and checks what expired.
func (s *collSim) advance(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
	s.settle()
}

func (s *collSim) settle() {
	now := time.Now()
	var want []expiry
	for m, p := range s.pipes {
		if s.d != 0 && !s.closed && !p.deadline.After(now) {
			if s.handler {
				want = append(want, expiry{slotString(ints(p.slots)), p.deadline})
			}
			delete(s.pipes, m)
			s.k.C.Count("expired", 1)
		}
	}
	s.mu.Lock()
	got := s.expired
	s.expired = nil
	malf := s.malf
	s.malf = nil
	s.mu.Unlock()
	str := func(e []expiry) string {
		var o []string
		for _, x := range e {
			o = append(o, fmt.Sprintf("%s at %s", x.slots, x.at.Format("05.000000000")))
		}
		sort.Strings(o)
		return strings.Join(o, " ")
	}
	s.log("time %s: expired %s", now.Format("15:04:05.000000"), str(got))
	if str(got) != str(want) {
		s.fail("expiry", "expired %s, want %s", str(got), str(want))
	}
	for _, m := range malf {
		s.fail("expiry", "%s", m)
	}
}

// pickSeg picks a segment to feed.
func (s *collSim) pickSeg(dups int) (cmsg, int) {
	m := pick(s.r, s.keys)
	p := s.pipes[m]
	if p == nil {
		return m, s.r.Range(1, m.segs)
	}
	if s.r.IntN(100) < dups {
		for i := 0; i < 20; i++ {
			q := s.r.IntN(m.segs)
			if p.slots[q] != 0 {
				return m, q + 1
			}
		}
	}
	for i := 0; i < 20; i++ {
		q := s.r.IntN(m.segs)
		if p.slots[q] == 0 {
			return m, q + 1
		}
	}
	for q := range p.slots {
		if p.slots[q] == 0 {
			return m, q + 1
		}
	}
	return m, 1
}

// reject makes one of the rejected calls, checking that nothing changed.
func (s *collSim) reject() {
	before := s.modelPipes()
	switch s.r.IntN(4) {
	case 0:
		m := pick(s.r, s.keys)
		s.feed(m, 0)
	case 1:
		m := pick(s.r, s.keys)
		if m.segs == 255 {
			s.feed(m, 0)
		} else {
			s.feed(m, pick(s.r, []int{m.segs + 1, 255, s.r.Range(m.segs+1, 255)}))
		}
	case 2:
		s.unsupported()
	case 3:
		for m, p := range s.pipes {
			for q := range p.slots {
				if p.slots[q] != 0 && (s.r.P(1, 3) || q == len(p.slots)-1) {
					s.feed(m, q+1)
					break
				}
			}
			break
		}
	}
	if s.modelPipes() != before {
		panic("harness: a rejection changed the model")
	}
	if !s.closed || s.r.P(1, 2) {
		s.checkPipes("after a rejection")
	}
}

type simCfg struct {
	steps   int
	dups    int // percent of segments which are duplicates
	rejects int // percent
	singles int
	pipes   int
	moves   int // percent of steps which advance time
	closing bool
}

func (s *collSim) run(cfg simCfg) {
	r := s.r
	for i := 0; i < cfg.steps && !s.bad; i++ {
		x := r.IntN(100)
		switch {
		case x < cfg.rejects:
			s.reject()
		case x < cfg.rejects+cfg.singles:
			s.single()
		case x < cfg.rejects+cfg.singles+cfg.pipes:
			s.checkPipes("in passing")
		case x < cfg.rejects+cfg.singles+cfg.pipes+cfg.moves:
			switch r.IntN(8) {
			case 0:
				s.advance(s.d)
			case 1:
				s.advance(s.d - 1)
			case 2:
				s.advance(1)
			case 3:
				s.advance(s.d + 1)
			case 4:
				s.advance(s.d / 2)
			case 5:
				s.advance(5 * s.d)
			default:
				s.advance(time.Duration(r.Int64N(int64(s.d)*6/5 + 1)))
			}
		default:
			m, q := s.pickSeg(cfg.dups)
			if r.P(1, 25) {
				m.segs = r.IntN(2) // complete in itself
			}
			s.feed(m, q)
		}
	}
	if s.bad {
		return
	}
	s.checkPipes("at the end")
	if cfg.closing && !s.bad {
		s.shut(cfg)
	}
	s.checkHeld()
}

func (s *collSim) shut(cfg simCfg) {
	s.c.Close()
	if s.r.P(1, 2) {
		s.c.Close()
	}
	s.log("closed")
	s.closed = true
	for i := 0; i < 6; i++ {
		switch s.r.IntN(3) {
		case 0:
			s.single()
		case 1:
			m, q := s.pickSeg(30)
			s.feed(m, q)
		case 2:
			s.reject()
		}
		if s.timed {
			s.advance(s.d)
		}
	}
	s.c.Close()
	if s.timed {
		s.advance(20 * s.d)
	}
}

// bubble runs f in a bubble of virtual time.
func bubble(k *mon.Case, f func()) {
	var p any
	synctest.Test(k.C.T, func(*testing.T) {
		defer func() { p = recover() }()
		f()
	})
	if p != nil {
		panic(p)
	}
}

// histOp is an operation of a concurrent history.
type histOp struct {
	pipes bool
	m     int // index of key
	seq   int
	id    int
}

type histOut struct {
	err  string // "", dup, or other
	ids  string // completed set
	snap string
}

func copyPipes(p map[int][]int) map[int][]int {
	q := map[int][]int{}
	for k, v := range p {
		q[k] = append([]int(nil), v...)
	}
	return q
}

// collectorModel is the sequential specification for linearizability.
func collectorModel(keys []cmsg) porcupine.Model {
	str := func(p map[int][]int) string {
		var o []string
		for _, v := range p {
			o = append(o, slotString(ints(v)))
		}
		sort.Strings(o)
		return strings.Join(o, " ")
	}
	return porcupine.Model{
		Init: func() any { return map[int][]int{} },
		Step: func(state, input, output any) (bool, any) {
			p, in, out := state.(map[int][]int), input.(histOp), output.(histOut)
			if in.pipes {
				return out.snap == str(p), p
			}
			v := p[in.m]
			if v != nil && v[in.seq-1] != 0 {
				return out.err == "dup" && out.ids == "", p
			}
			if out.err != "" {
				return false, p
			}
			q := copyPipes(p)
			if v == nil {
				q[in.m] = make([]int, keys[in.m].segs)
			}
			v = q[in.m]
			v[in.seq-1] = in.id
			for _, x := range v {
				if x == 0 {
					return out.ids == "", q
				}
			}
			delete(q, in.m)
			return out.ids == slotString(v), q
		},
		Equal:             func(a, b any) bool { return fmt.Sprint(a) == fmt.Sprint(b) },
		DescribeOperation: func(i, o any) string { return fmt.Sprintf("%+v -> %+v", i, o) },
	}
}

// linear runs a concurrent history and checks it is linearizable.
func linear(k *mon.Case, snaps int) {
	r := k.R()
	keys := limited(genKeys(r, r.Range(1, 3)), r.Range(2, 4))
	coll := sms.NewCollector(sms.WithReassemblyTimeout(time.Hour, nil))
	defer coll.Close()
	gs, per := r.Range(3, 6), r.Range(4, 7)
	ops := make([][]histOp, gs)
	pdus := make([][]tpdu.TPDU, gs)
	sent := map[int]*tpdu.TPDU{}
	id := 1
	for g := range ops {
		for i := 0; i < per; i++ {
			if r.IntN(100) < snaps {
				ops[g] = append(ops[g], histOp{pipes: true})
				pdus[g] = append(pdus[g], tpdu.TPDU{})
				continue
			}
			m := r.IntN(len(keys))
			o := histOp{false, m, r.Range(1, keys[m].segs), id}
			t := buildSeg(r, keys[m], o.seq, id)
			sent[id] = cloneTPDU(&t)
			id++
			ops[g] = append(ops[g], o)
			pdus[g] = append(pdus[g], t)
		}
	}
	var clock atomic.Int64
	hist := make([][]porcupine.Operation, gs)
	maps := make([]map[string][]*tpdu.TPDU, 0)
	var mu sync.Mutex
	var bad []string
	together(gs, func(g int) {
		for i, o := range ops[g] {
			var out histOut
			call := clock.Add(1)
			if o.pipes {
				m := coll.Pipes()
				ret := clock.Add(1)
				out.snap = pipesString(m)
				mu.Lock()
				maps = append(maps, m)
				mu.Unlock()
				hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: o, Call: call, Output: out, Return: ret})
				continue
			}
			p, err := coll.Collect(pdus[g][i])
			ret := clock.Add(1)
			switch {
			case errors.Is(err, sms.ErrDuplicateSegment):
				out.err = "dup"
			case err != nil:
				out.err = err.Error()
			}
			if p != nil {
				out.ids = slotString(segIDs(p))
				for _, t := range p {
					if d := "missing"; t == nil || sent[segID(t)] == nil {
						mu.Lock()
						bad = append(bad, d)
						mu.Unlock()
					} else if d = same(sent[segID(t)], t); d != "" {
						mu.Lock()
						bad = append(bad, d)
						mu.Unlock()
					}
				}
			}
			hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: o, Call: call, Output: out, Return: ret})
		}
	})
	var all []porcupine.Operation
	for g := range hist {
		all = append(all, hist[g]...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	var sb, order strings.Builder
	overlap := 0
	for i, o := range all {
		fmt.Fprintf(&sb, "\n    [%d,%d] g%d %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output)
		fmt.Fprint(&order, o.ClientId, " ")
		if i > 0 && o.Call < all[i-1].Return {
			overlap++
		}
	}
	k.Input("keys", keys, "history", sb.String())
	k.Seen("linear", order.String(), sb.String())
	k.C.Count("history_ops", int64(len(all)))
	k.C.Count("history_overlapping", int64(overlap))
	for _, b := range bad {
		k.Fail("altered", "a returned segment is altered: %s", b)
	}
	switch porcupine.CheckOperationsTimeout(collectorModel(keys), all, 10*time.Second) {
	case porcupine.Illegal:
		k.Fail("linearizable", "no order of the operations explains their results")
	case porcupine.Unknown:
		k.C.Count("history_unknown", 1)
	default:
		k.C.Count("history_linearizable", 1)
	}
	for _, m := range maps {
		for _, p := range m {
			for _, t := range p {
				if t != nil && sent[segID(t)] == nil {
					k.Fail("snapshot", "a snapshot holds a segment never sent")
				}
			}
		}
	}
}

// torrent feeds many messages from many goroutines and requires each to
// complete exactly once.
func torrent(k *mon.Case, withPipes bool) {
	r := k.R()
	d := time.Duration(0)
	if r.P(1, 2) {
		d = time.Hour
	}
	coll := sms.NewCollector(sms.WithReassemblyTimeout(d, func([]*tpdu.TPDU) {}))
	defer coll.Close()
	keys := limited(genKeys(r, r.Range(20, 120)), 20)
	type seg struct {
		m, seq, id int
		t          tpdu.TPDU
	}
	var segs []seg
	sent := map[int]*tpdu.TPDU{}
	want := make([][]int, len(keys))
	for m := range keys {
		want[m] = make([]int, keys[m].segs)
		for q := range want[m] {
			id := len(segs) + 1
			want[m][q] = id
			t := buildSeg(r, keys[m], q+1, id)
			sent[id] = cloneTPDU(&t)
			segs = append(segs, seg{m, q + 1, id, t})
		}
	}
	r.Shuffle(len(segs), func(i, j int) { segs[i], segs[j] = segs[j], segs[i] })
	gs := r.Range(2, 8)
	doneBy := make([]atomic.Pointer[[]*tpdu.TPDU], len(keys))
	var bad atomic.Pointer[string]
	fail := func(f string, a ...any) { s := fmt.Sprintf(f, a...); bad.Store(&s) }
	var next atomic.Int64
	var collectors = gs
	if withPipes {
		gs += 2
	}
	together(gs, func(g int) {
		if g >= collectors {
			for int(next.Load()) < len(segs) {
				for _, p := range coll.Pipes() {
					n := 0
					for i, t := range p {
						if t == nil {
							continue
						}
						n++
						id := segID(t)
						if sent[id] == nil {
							fail("a snapshot holds an unknown segment")
						} else if _, q, _, _ := t.ConcatInfo(); q != i+1 {
							fail("a snapshot holds segment %d in position %d", q, i)
						}
						p[i] = nil
					}
					if n == 0 || n == len(p) {
						fail("a snapshot holds %d of %d segments", n, len(p))
					}
				}
				k.C.Beat()
			}
			return
		}
		for {
			i := int(next.Add(1)) - 1
			if i >= len(segs) {
				return
			}
			p, err := coll.Collect(segs[i].t)
			if err != nil {
				fail("segment %d of %v: %v", segs[i].seq, keys[segs[i].m], err)
			}
			if p != nil {
				if !doneBy[segs[i].m].CompareAndSwap(nil, &p) {
					fail("%v completed twice", keys[segs[i].m])
				}
			}
		}
	})
	k.Input("messages", len(keys), "segments", len(segs), "goroutines", gs)
	k.Seen("torrent", len(segs), gs, k.I)
	k.C.Count("torrent_segments", int64(len(segs)))
	if s := bad.Load(); s != nil {
		k.Fail("torrent", "%s", *s)
	}
	for m := range keys {
		p := doneBy[m].Load()
		if p == nil {
			k.Fail("lost", "%v never completed", keys[m])
			continue
		}
		if got := segIDs(*p); slotString(got) != slotString(want[m]) {
			k.Fail("torrent", "%v completed with %v, want %v", keys[m], got, want[m])
			continue
		}
		for i, t := range *p {
			if d := same(sent[want[m][i]], t); d != "" {
				k.Fail("torrent", "segment %d of %v is altered: %s", i+1, keys[m], d)
			}
		}
	}
	if p := coll.Pipes(); len(p) != 0 {
		k.Fail("torrent", "%d pipes remain", len(p))
	}
}

// exhaust is n, or 0 in race builds, as sequential enumeration is for the other.
func exhaust(c *mon.Ctx, n int) int {
	if c.Race {
		return 0
	}
	return n
}

// p06: reassembly.
func p06(c *mon.Ctx) {
	c.Rule("random sequences of segments of up to a dozen messages whose identities differ in one aspect, out of order, with duplicates, singles and rejects, against a model; every arrival order of short messages; concurrent histories checked for linearizability; and many messages from many goroutines. Non-trivial: distinct step sequences, and distinct recorded histories.")
	c.Run("model", c.N(1000), func(k *mon.Case) {
		r := k.R()
		n := 1
		if r.P(1, 3) {
			n = 2
		}
		var sims []*collSim
		for i := 0; i < n; i++ {
			s := newSim(k, r, genKeys(r, r.Range(1, 12)), pick(r, []time.Duration{0, time.Hour}), r.P(1, 2))
			if i > 0 && r.P(1, 2) {
				s.keys = sims[0].keys // independent of the other
			}
			s.keep = true
			sims = append(sims, s)
		}
		for i := 0; i < 6; i++ {
			for _, s := range sims {
				if !s.bad {
					s.run(simCfg{steps: r.Range(1, 40), dups: 8, rejects: 5, singles: 5, pipes: 4})
				}
			}
		}
		for _, s := range sims {
			k.Input("steps", strings.Join(s.trace, "\n    "))
			k.Seen(strings.Join(s.trace, ";"))
			s.settle0()
			s.c.Close()
		}
	})
	// every message length and every order of arrival of short messages
	c.Run("lengths", exhaust(c, 254), func(k *mon.Case) {
		r := k.R()
		m := cmsg{k.I%2 == 0, 0x91, "12345", r.IntN(65536), k.I + 2}
		s := newSim(k, r, []cmsg{m}, 0, false)
		defer s.c.Close()
		for _, q := range r.Perm(m.segs) {
			if !s.bad {
				s.feed(m, q+1)
			}
		}
		k.Seen("length", m.segs)
		if !s.bad {
			s.checkPipes("at the end")
		}
	})
	if !c.Race {
		c.Exhaustive("messages of every number of segments from 2 to 255")
		c.Exhaustive("every order of arrival of 2 to 5 segments")
	}
	perms := 0
	c.Run("orders", exhaust(c, 1), func(k *mon.Case) {
		r := k.R()
		var permute func(a []int, i int, f func([]int))
		permute = func(a []int, i int, f func([]int)) {
			if i == len(a) {
				f(a)
				return
			}
			for j := i; j < len(a); j++ {
				a[i], a[j] = a[j], a[i]
				permute(a, i+1, f)
				a[i], a[j] = a[j], a[i]
			}
		}
		for n := 2; n <= 5; n++ {
			a := make([]int, n)
			for i := range a {
				a[i] = i + 1
			}
			coll := newSim(k, r, nil, 0, false)
			permute(a, 0, func(o []int) {
				m := cmsg{r.P(1, 2), 0x81, "99", perms & 0xffff, n}
				for _, q := range o {
					if !coll.bad {
						coll.feed(m, q)
					}
				}
				perms++
				k.C.Eval("order", fmt.Sprint(o))
			})
			coll.c.Close()
		}
	})
	// many messages at once
	c.Run("crowd", c.N(12), func(k *mon.Case) {
		r := k.R()
		n := r.Range(100, 4000)
		d := pick(r, []time.Duration{0, time.Hour})
		if (k.I == 5 || k.I == 6) && !c.Race { // past any narrow integer
			n, d = r.Range(98000, 105000), time.Duration(k.I-5)*time.Hour
		}
		s := newSim(k, r, crowd(r, n), d, r.P(1, 2))
		for i := 0; i < 2 && !s.bad; i++ {
			s.feedCrowd(pick(r, []int{0, 0, 5}))
		}
		k.C.Count("crowd", int64(len(s.keys)))
		k.Input("messages", len(s.keys))
		k.Seen("crowd", strings.Join(s.trace, ";"))
		s.settle0()
		s.c.Close()
	})
	// so many that their keys would collide were they less than the whole
	if !c.Race {
		c.Run("multitude", 2, func(k *mon.Case) { multitude(k, 250000) })
	}
	c.Run("linear", c.N(800), func(k *mon.Case) { linear(k, 8) })
	c.Run("torrent", c.N(60), func(k *mon.Case) { torrent(k, false) })
	c.Run("realtime", c.N(8), func(k *mon.Case) { contend(k, false) })
	c.Run("pending", c.N(24), func(k *mon.Case) { pending(k) })
}

// multitude has n messages of two segments pending at once.
func multitude(k *mon.Case, n int) {
	r := k.R()
	coll := sms.NewCollector()
	defer coll.Close()
	addrs := make([]string, 1+n/20)
	for i := range addrs {
		addrs[i] = genNumber(r)
	}
	seg := func(m cmsg, seq, id int) (t tpdu.TPDU) {
		a := tpdu.Address{TOA: m.toa, Addr: m.addr}
		if m.mo {
			t.Direction, t.FirstOctet, t.DA = tpdu.MO, 0x41, a
		} else {
			t.FirstOctet, t.OA = 0x40, a
		}
		ie := tpdu.InformationElement{ID: 8, Data: []byte{byte(m.ref >> 8), byte(m.ref), 2, byte(seq)}}
		if !wideRef(m.ref) {
			ie = tpdu.InformationElement{ID: 0, Data: []byte{byte(m.ref), 2, byte(seq)}}
		}
		t.UDH = tpdu.UserDataHeader{ie}
		t.UD = binary.BigEndian.AppendUint32([]byte{idMagic}, uint32(id))
		return
	}
	have := make(map[cmsg]bool, n)
	var keys []cmsg
	for len(keys) < n {
		m := cmsg{k.I%2 == 0, pick(r, []byte{0x91, 0x81}), pick(r, addrs), r.IntN(65536), 2}
		if !have[m] {
			have[m] = true
			keys = append(keys, m)
		}
		k.C.Beat()
	}
	k.Input("messages", n)
	k.Seen("multitude", n, keys[0].String())
	first := r.Range(1, 2)
	for i, m := range keys {
		if set, err := coll.Collect(seg(m, first, i*2+1)); err != nil || set != nil {
			k.Fail("mixed", "the first segment of %s, message %d, gave %v, %v", m, i, segIDs(set), err)
			return
		}
		k.C.Beat()
	}
	for _, i := range r.Perm(n) {
		set, err := coll.Collect(seg(keys[i], 3-first, i*2+2))
		want := []int{i*2 + 1, i*2 + 2}
		if first == 2 {
			want = []int{i*2 + 2, i*2 + 1}
		}
		if got := segIDs(set); err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			k.Fail("mixed", "the last segment of %s, message %d, gave %v, %v, want %v", keys[i], i, got, err, want)
			return
		}
		k.C.Beat()
	}
	k.C.Count("multitude", int64(n))
	if p := coll.Pipes(); len(p) != 0 {
		k.Fail("pipes", "%d pipes remain", len(p))
	}
}

// settle0 checks that no expiry was seen where none is possible.
func (s *collSim) settle0() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.expired) != 0 {
		s.fail("expiry", "expired %v", s.expired)
	}
}

// p07: rejection.
func p07(c *mon.Ctx) {
	c.Rule("random sequences dense in duplicates, inconsistent sequence numbers, unsupported types and use after close, in virtual time, where each rejected call must return its error and leave the held segments, and their expiry, as they were. Non-trivial: distinct step sequences.")
	c.Run("untimed", c.N(1500), func(k *mon.Case) {
		r := k.R()
		s := newSim(k, r, genKeys(r, r.Range(1, 5)), 0, r.P(1, 2))
		s.keep = true
		s.run(simCfg{steps: r.Range(5, 60), dups: 25, rejects: 40, singles: 3, pipes: 2, closing: true})
		k.Input("steps", strings.Join(s.trace, "\n    "))
		k.Seen(strings.Join(s.trace, ";"))
		s.c.Close()
	})
	c.Run("timed", c.N(1500), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			s := newSim(k, r, genKeys(r, r.Range(1, 5)), time.Duration(r.Range(1, 2000))*time.Millisecond, r.P(7, 8))
			s.timed = true
			s.run(simCfg{steps: r.Range(5, 60), dups: 25, rejects: 40, singles: 3, pipes: 2, moves: 10, closing: true})
			k.Input("steps", strings.Join(s.trace, "\n    "))
			k.Seen(strings.Join(s.trace, ";"))
			s.c.Close()
		})
	})
	// the first of duplicates is kept, whatever the second
	c.Run("first", c.N(800), func(k *mon.Case) {
		r := k.R()
		m := genKeys(r, 1)[0]
		s := newSim(k, r, []cmsg{m}, pick(r, []time.Duration{0, time.Hour}), false)
		defer s.c.Close()
		for _, q := range r.Perm(m.segs) {
			s.feed(m, q+1)
			if s.pipes[m] != nil {
				for n := r.IntN(3); n > 0; n-- {
					s.feed(m, q+1)
				}
				if r.P(1, 4) {
					s.reject()
				}
			}
			if s.bad {
				return
			}
		}
		k.Seen("first", m.String(), strings.Join(s.trace, ";"))
		s.checkPipes("at the end")
	})
	// every sequence number for every number of segments
	c.Run("grid", exhaust(c, 256), func(k *mon.Case) {
		r := k.R()
		m := cmsg{k.I%2 == 1, 0x91, "1", r.IntN(65536), k.I}
		s := newSim(k, r, []cmsg{m}, 0, false)
		defer s.c.Close()
		for seq := 0; seq < 256; seq++ {
			if !s.bad {
				s.feed(m, seq)
			}
		}
		k.C.Eval("grid", k.I)
		if !s.bad {
			s.checkPipes("at the end")
		}
	})
	if !c.Race {
		c.Exhaustive("every (segments, sequence number) of concatenation elements")
	}
	c.Run("linear", c.N(200), func(k *mon.Case) { linear(k, 5) })
}

// anyTimeout is of any magnitude, and not usually of whole units.
func anyTimeout(r *mon.Rng) time.Duration {
	d := time.Duration(r.Int64N(1<<r.Range(1, 55)) + 1)
	switch r.IntN(4) {
	case 0:
		d = d.Truncate(time.Second) + pick(r, []time.Duration{1, 499999999, 500000000, 500000001, 999999999})
	case 1:
		d = d.Truncate(24*time.Hour) + pick(r, []time.Duration{1, time.Second - 1, time.Hour, 24*time.Hour - 1})
	}
	return d
}

// p08: expiry.
func p08(c *mon.Ctx) {
	c.Rule("random sequences of segments, duplicates, rejects, completions and intervals about the timeout, in virtual time so that each expiry is compared exactly; and real time stress, in which segments contend with expiry, balanced by an account of every segment accepted. Non-trivial: distinct step sequences, and expiries observed.")
	c.Run("virtual", c.N(2500), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			s := newSim(k, r, genKeys(r, r.Range(1, 6)), pick(r, []time.Duration{1, time.Microsecond, time.Second, 36 * time.Hour, 400 * 24 * time.Hour, time.Duration(r.Range(1, 5000)) * time.Millisecond, anyTimeout(r), anyTimeout(r)}), r.P(7, 8))
			s.timed, s.keep = true, r.P(1, 2)
			if r.P(1, 16) {
				s.c.Close()
				s.c = sms.NewCollector(sms.WithReassemblyTimeout(0, s.onExpiry))
				s.d = 0
				s.onExp = func([]*tpdu.TPDU) { s.oops("expired without a timeout") }
				s.run(simCfg{steps: 20, dups: 10})
				s.advance(1000 * time.Hour)
				s.checkPipes("without a timeout")
			} else {
				s.run(simCfg{steps: r.Range(5, 80), dups: 10, rejects: 4, singles: 3, pipes: 6, moves: 30, closing: r.P(1, 3)})
				if !s.bad && !s.closed {
					s.advance(3 * s.d)
					s.checkPipes("after everything expired")
				}
				s.checkHeld()
			}
			k.Input("timeout", s.d, "steps", strings.Join(s.trace, "\n    "))
			k.Seen(strings.Join(s.trace, ";"))
			s.c.Close()
		})
	})
	// a message which trickles in, each segment just within the timeout
	c.Run("trickle", c.N(200), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			m := genKeys(r, 1)[0]
			s := newSim(k, r, []cmsg{m}, pick(r, []time.Duration{time.Duration(r.Range(2, 5000)) * time.Millisecond, max(2, anyTimeout(r))}), true)
			s.timed = true
			gap := s.d - pick(r, []time.Duration{1, 1, time.Duration(r.Int64N(int64(s.d))) + 1})
			for i, q := range r.Perm(m.segs) {
				if s.bad {
					break
				}
				if i > 0 {
					s.advance(gap)
				}
				s.feed(m, q+1)
			}
			if !s.bad {
				s.advance(10 * s.d)
				s.checkPipes("at the end")
			}
			k.Input("message", m.String(), "gap", gap)
			k.Seen("trickle", m.String(), gap)
			s.c.Close()
		})
	})
	// many messages at once
	c.Run("crowd", c.N(10), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			n := r.Range(100, 3000)
			if k.I%4 == 1 {
				n = r.Range(4000, 20000)
			}
			s := newSim(k, r, crowd(r, n), pick(r, []time.Duration{time.Second, time.Hour, 400 * 24 * time.Hour}), true)
			s.timed = true
			s.feedCrowd(r.Range(5, 60))
			if !s.bad {
				s.advance(3 * s.d)
				s.checkPipes("after everything expired")
			}
			k.C.Count("crowd", int64(len(s.keys)))
			k.Input("messages", len(s.keys))
			k.Seen("crowd", strings.Join(s.trace, ";"))
			s.c.Close()
		})
	})
	c.Run("realtime", c.N(24), func(k *mon.Case) { contend(k, false) })
	c.Run("closing-fired", c.N(25), func(k *mon.Case) { closingFired(k) })
	c.Run("pending", c.N(40), func(k *mon.Case) { pending(k) })
}

// contend races segments against expiry in real time, accounting for each.
func contend(k *mon.Case, closing bool) {
	r := k.R()
	d := time.Duration(pick(r, []int{100, 300, 1000, 3000})) * time.Microsecond
	start := time.Now()
	type exp struct {
		ids []int
		n   int
		at  time.Duration
	}
	var mu sync.Mutex
	var exps []exp
	var sets [][]int
	var bad []string
	fail := func(f string, a ...any) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	keys := limited(genKeys(r, r.Range(3, 40)), 6)
	coll := sms.NewCollector(sms.WithReassemblyTimeout(d, func(p []*tpdu.TPDU) {
		at := time.Since(start)
		ids := segIDs(p)
		mu.Lock()
		exps = append(exps, exp{ids, len(p), at})
		mu.Unlock()
	}))
	type rec struct {
		m, seq    int
		call, ret time.Duration
		ok        bool
	}
	gs := r.Range(3, 8)
	const per = 400
	recs := make([]rec, gs*per+1)
	type plan struct {
		m, seq int
		t      tpdu.TPDU
		nap    time.Duration
	}
	plans := make([][]plan, gs)
	for g := range plans {
		for i := 0; i < per; i++ {
			m := r.IntN(len(keys))
			q := r.Range(1, keys[m].segs)
			nap := time.Duration(0)
			if r.P(1, 10) {
				nap = d * time.Duration(r.Range(1, 12)) / 10
			}
			plans[g] = append(plans[g], plan{m, q, buildSeg(r, keys[m], q, g*per+i+1), nap})
		}
	}
	together(gs, func(g int) {
		for i, p := range plans[g] {
			if p.nap > 0 {
				time.Sleep(p.nap)
			}
			id := g*per + i + 1
			call := time.Since(start)
			set, err := coll.Collect(p.t)
			recs[id] = rec{p.m, p.seq, call, time.Since(start), err == nil}
			if err != nil && !errors.Is(err, sms.ErrDuplicateSegment) {
				fail("segment rejected: %v", err)
			}
			if set != nil {
				ids := segIDs(set)
				mu.Lock()
				sets = append(sets, ids)
				mu.Unlock()
			}
			if i%40 == 0 {
				coll.Pipes()
				k.C.Beat()
			}
		}
	})
	// let all expire
	for i := 0; i < 2000 && len(coll.Pipes()) != 0; i++ {
		time.Sleep(5 * time.Millisecond)
		k.C.Beat()
	}
	left := len(coll.Pipes())
	accepted := 0
	for _, x := range recs {
		if x.ok {
			accepted++
		}
	}
	// a pipe is removed shortly before its handler is called
	for i := 0; i < 2000; i++ {
		mu.Lock()
		n := 0
		for _, e := range exps {
			for _, id := range e.ids {
				if id > 0 {
					n++
				}
			}
		}
		for _, s := range sets {
			n += len(s)
		}
		mu.Unlock()
		if n >= accepted {
			break
		}
		time.Sleep(5 * time.Millisecond)
		k.C.Beat()
	}
	coll.Close()
	mu.Lock()
	defer mu.Unlock()
	k.Input("timeout", d, "goroutines", gs, "messages", len(keys), "completed", len(sets), "expired", len(exps))
	k.Seen("contend", k.I, len(sets), len(exps))
	k.C.Count("realtime_accepted", int64(accepted))
	k.C.Count("realtime_completed", int64(len(sets)))
	k.C.Count("realtime_expired", int64(len(exps)))
	for _, b := range bad {
		k.Fail("realtime", "%s", b)
	}
	if left != 0 {
		k.Fail("realtime", "%d pipes never expired", left)
	}
	times := map[int]int{}
	one := func(what string, ids []int) (last time.Duration, n int) {
		m := -1
		for i, id := range ids {
			if id == -1 {
				continue
			}
			if id <= 0 || id >= len(recs) {
				k.Fail("realtime", "%s: unknown segment in %v", what, ids)
				return
			}
			n++
			times[id]++
			x := recs[id]
			if !x.ok {
				k.Fail("realtime", "%s: holds a rejected segment", what)
			}
			if m == -1 {
				m = x.m
			}
			if x.m != m || len(ids) != keys[m].segs || x.seq != i+1 {
				k.Fail("realtime", "%s: segment %d of %v in position %d of %d with those of %v", what, x.seq, keys[x.m], i, len(ids), keys[m])
			}
			last = max(last, x.call)
		}
		return
	}
	for _, s := range sets {
		if _, n := one("completed", s); n != len(s) {
			k.Fail("realtime", "completed set %v has segments missing", s)
		}
	}
	for _, e := range exps {
		last, n := one("expired", e.ids)
		if n == 0 || n == e.n {
			k.Fail("realtime", "expired set %v has %d of %d segments", e.ids, n, e.n)
		}
		if e.at < last+d {
			k.Fail("realtime", "set %v expired %v after its last segment, the timeout is %v", e.ids, e.at-last, d)
		}
	}
	for id := 1; id < len(recs); id++ {
		if recs[id].ok && times[id] != 1 {
			k.Fail("conservation", "segment %d of %v was accepted once and came out %d times", recs[id].seq, keys[recs[id].m], times[id])
			break
		}
	}
	by := make([][]joined, len(keys))
	for id := 1; id < len(recs); id++ {
		if x := recs[id]; x.ok {
			by[x.m] = append(by[x.m], joined{id, x.call, x.ret})
		}
	}
	for _, e := range exps {
		if id := someID(e.ids); id > 0 {
			joins(k, d, by[recs[id].m], e.ids)
		}
	}
}

func someID(ids []int) int {
	for _, id := range ids {
		if id > 0 {
			return id
		}
	}
	return 0
}

// joined is a segment accepted by a collector, and when.
type joined struct {
	id        int
	call, ret time.Duration
}

// joins requires that each segment of a message accepted while a set of its
// segments, which later expired, was held and could not yet have timed out, is
// one of that set.
func joins(k *mon.Case, d time.Duration, accepted []joined, set []int) {
	in := map[int]bool{}
	for _, id := range set {
		if id > 0 {
			in[id] = true
		}
	}
	for _, b := range accepted {
		if in[b.id] {
			continue
		}
		for _, a := range accepted {
			if in[a.id] && a.ret <= b.call && b.ret < a.call+d {
				k.Fail("join", "segment id %d, accepted at %v to %v, is not one of the set %v which segment id %d joined at %v to %v and which expired later, the timeout being %v",
					b.id, b.call, b.ret, set, a.id, a.call, a.ret, d)
				return
			}
			if in[a.id] && a.ret <= b.call {
				k.C.Count("later_set", 1)
			}
		}
	}
}

// pending has a segment arrive after the timer has fired, and before the
// collector has dealt with it, by holding the collector's own lock across the
// expiry.
func pending(k *mon.Case) {
	r := k.R()
	m := cmsg{r.P(1, 2), 0x91, genNumber(r), r.IntN(65536), r.Range(2, 4)}
	d := time.Duration(r.Range(3, 12)) * time.Millisecond
	var mu sync.Mutex
	var exps [][]int
	coll := sms.NewCollector(sms.WithReassemblyTimeout(d, func(p []*tpdu.TPDU) {
		ids := segIDs(p)
		mu.Lock()
		exps = append(exps, ids)
		mu.Unlock()
	}))
	defer coll.Close()
	l, ok := any(coll).(sync.Locker)
	if !ok {
		k.C.Count("pending_no_lock", 1)
		return
	}
	type out struct {
		id, seq   int
		set       []int
		err       error
		call, ret time.Duration
	}
	start := time.Now()
	order := r.Perm(m.segs)
	var outs []out
	id := 1
	feed := func(q int) {
		t := buildSeg(r, m, q+1, id)
		call := time.Since(start)
		s, err := coll.Collect(t)
		o := out{id, q, nil, err, call, time.Since(start)}
		if s != nil {
			o.set = segIDs(s)
		}
		outs = append(outs, o)
		id++
	}
	n := r.Range(1, m.segs-1)
	for _, q := range order[:n] {
		feed(q)
	}
	// the next segment waits for the lock first, then the timer fires.
	l.Lock()
	done := make(chan struct{})
	next := order[n]
	if r.P(1, 4) {
		next = order[0] // a duplicate
	}
	over := time.Duration(r.Range(1, 10)) * time.Millisecond
	go func() {
		defer close(done)
		feed(next)
	}()
	time.Sleep(d + over)
	l.Unlock()
	<-done
	for _, q := range order[n:] {
		if q != next || r.P(1, 3) {
			feed(q)
		}
	}
	limit := time.Now().Add(20 * time.Second)
	acc := 0
	for _, o := range outs {
		if o.err == nil {
			acc++
		}
	}
	total := func() int {
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, e := range exps {
			for _, x := range e {
				if x > 0 {
					n++
				}
			}
		}
		for _, o := range outs {
			n += len(o.set)
		}
		return n
	}
	for time.Now().Before(limit) && (total() < acc || len(coll.Pipes()) != 0) {
		time.Sleep(2 * time.Millisecond)
		k.C.Beat()
	}
	time.Sleep(d)
	mu.Lock()
	defer mu.Unlock()
	k.Input("message", m.String(), "timeout", d, "held", n, "results", fmt.Sprintf("%+v", outs), "expired", exps)
	k.Seen("pending", m.segs, n, len(exps), fmt.Sprint(outs))
	k.C.Count("pending", 1)
	if len(exps) > 1 {
		k.C.Count("pending_renewed", 1)
	}
	count := map[int]int{}
	check := func(ids []int, complete bool) {
		n := 0
		if len(ids) != m.segs {
			k.Fail("pending", "set %v has %d segments, want %d", ids, len(ids), m.segs)
			return
		}
		for i, x := range ids {
			if x <= 0 {
				continue
			}
			n++
			count[x]++
			if x-1 >= len(outs) || outs[x-1].seq != i {
				k.Fail("pending", "set %v has segments out of place", ids)
			}
		}
		if complete != (n == m.segs) || n == 0 {
			k.Fail("pending", "set %v: complete is %v", ids, complete)
		}
	}
	var acks []joined
	for _, o := range outs {
		if o.err == nil {
			acks = append(acks, joined{o.id, o.call, o.ret})
		}
	}
	for _, e := range exps {
		check(e, false)
		joins(k, d, acks, e)
	}
	for _, o := range outs {
		if o.set != nil {
			check(o.set, true)
		}
		if o.err != nil && !errors.Is(o.err, sms.ErrDuplicateSegment) {
			k.Fail("pending", "segment %d rejected: %v", o.seq, o.err)
		}
	}
	for _, o := range outs {
		w := 1
		if o.err != nil {
			w = 0
		}
		if count[o.id] != w {
			k.Fail("conservation", "segment %d (id %d) came out %d times, want %d", o.seq+1, o.id, count[o.id], w)
		}
	}
	if p := coll.Pipes(); len(p) != 0 {
		k.Fail("pending", "%d pipes never expired", len(p))
	}
}

// closingFired closes a collector with messages pending, the timeouts of some
// of which have passed but are yet to be handled. Those with time remaining
// once Close has returned, or which the collector still holds, are not to
// expire.
func closingFired(k *mon.Case) {
	r := k.R()
	d := time.Duration(r.Range(12, 24)) * time.Millisecond
	start := time.Now()
	var mu sync.Mutex
	expired := map[int]time.Duration{}
	coll := sms.NewCollector(sms.WithReassemblyTimeout(d, func(p []*tpdu.TPDU) {
		at := time.Since(start)
		mu.Lock()
		for _, id := range segIDs(p) {
			if id > 0 {
				expired[id] = at
			}
		}
		mu.Unlock()
	}))
	added := map[int]time.Duration{}
	id := 0
	add := func(n int) {
		for ; n > 0; n-- {
			id++
			m := cmsg{r.P(1, 2), 0x91, "5", id, r.Range(2, 4)}
			t := buildSeg(r, m, r.Range(1, m.segs), id)
			added[id] = time.Since(start)
			if set, err := coll.Collect(t); err != nil || set != nil {
				k.Fail("closing", "segment %d gave %v, %v", id, set, err)
			}
		}
	}
	add(r.Range(1, 12))
	time.Sleep(time.Until(start.Add(d * 2 / 3)))
	add(r.Range(1, 40))
	closed := make(chan time.Duration, 1)
	left := map[int]bool{} // segments the collector still held when closed
	closeIt := func() {
		coll.Close()
		at := time.Since(start)
		for _, p := range coll.Pipes() {
			for _, i := range segIDs(p) {
				if i > 0 {
					left[i] = true
				}
			}
		}
		closed <- at
	}
	if l, ok := any(coll).(sync.Locker); ok && r.P(3, 4) {
		l.Lock()
		go closeIt()
		time.Sleep(time.Until(start.Add(d + time.Millisecond)))
		l.Unlock()
	} else {
		for time.Since(start) < d {
			coll.Pipes()
		}
		closeIt()
	}
	at := <-closed
	for i := 0; i < 2; i++ {
		time.Sleep(d)
		k.C.Beat()
	}
	mu.Lock()
	defer mu.Unlock()
	open, kept := 0, 0
	for i := 1; i <= id; i++ {
		if x, ok := expired[i]; ok && left[i] {
			k.Fail("closing", "message %d, added at %v with timeout %v, was still held when the collector had been closed, at %v, yet expired at %v", i, added[i], d, at, x)
		}
		if left[i] {
			kept++
		}
		if added[i]+d <= at {
			continue // may have been firing
		}
		open++
		if x, ok := expired[i]; ok {
			k.Fail("closing", "message %d, added at %v with timeout %v, expired at %v although the collector was closed by %v", i, added[i], d, x, at)
		}
	}
	k.Input("timeout", d, "messages", id, "pending at close", open, "expired", len(expired))
	k.Seen("closing-fired", id, open, len(expired))
	k.C.Count("pending_at_close", int64(open))
	k.C.Count("held_at_close", int64(kept))
	if len(expired) > 0 && open > 0 {
		k.C.Count("closed_while_firing", 1)
	}
}

// p09: snapshots, handlers and closing.
func p09(c *mon.Ctx) {
	c.Rule("random sequences in which every snapshot and set returned is held and verified later, or overwritten; handlers which call back into the collector, or block while it is used; closing with messages pending; and concurrent readers. Non-trivial: distinct step sequences and histories.")
	c.Run("snapshots", c.N(1500), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			s := newSim(k, r, genKeys(r, r.Range(1, 6)), pick(r, []time.Duration{time.Second, time.Duration(r.Range(1, 5000)) * time.Millisecond}), r.P(3, 4))
			s.timed, s.keep, s.scrub = true, true, r.P(1, 2)
			if s.scrub {
				s.onExp = func(p []*tpdu.TPDU) {
					for i := range p {
						p[i] = nil
					}
				}
			}
			s.run(simCfg{steps: r.Range(5, 80), dups: 10, rejects: 3, singles: 3, pipes: 25, moves: 10, closing: r.P(1, 2)})
			k.Input("timeout", s.d, "steps", strings.Join(s.trace, "\n    "))
			k.Seen(strings.Join(s.trace, ";"))
			s.c.Close()
			s.closed = true
			s.advance(10 * s.d)
			s.checkHeld()
		})
	})
	// handlers which use the collector
	c.Run("handlers", c.N(400), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			keys := genKeys(r, r.Range(1, 5))
			d := time.Duration(r.Range(10, 5000)) * time.Millisecond
			var mu sync.Mutex
			var calls []string
			var problems []string
			prob := func(f string, a ...any) { mu.Lock(); problems = append(problems, fmt.Sprintf(f, a...)); mu.Unlock() }
			var coll *sms.Collector
			act := r.IntN(5)
			acts := []string{"reads the pipes", "collects a single", "starts the message again", "closes", "blocks"}
			again := 3
			release := make(chan struct{})
			id := 1000
			coll = sms.NewCollector(sms.WithReassemblyTimeout(d, func(p []*tpdu.TPDU) {
				ids := segIDs(p)
				mu.Lock()
				calls = append(calls, fmt.Sprint(ids))
				id++
				me := id
				rr := k.C.Rng("handler", me)
				re := again > 0
				again--
				mu.Unlock()
				m := keys[0]
				for _, t := range p {
					if t != nil {
						n, _, rf, _ := t.ConcatInfo()
						a, mo := t.OA, false
						if t.SmsType() == tpdu.SmsSubmit {
							a, mo = t.DA, true
						}
						m = cmsg{mo, a.TOA, a.Addr, rf, n}
					}
				}
				switch act {
				case 0:
					for _, q := range coll.Pipes() {
						if fmt.Sprint(segIDs(q)) == fmt.Sprint(ids) {
							prob("the expired set %v remains in the pipes", ids)
						}
					}
				case 1:
					t := buildSeg(rr, m, 1, me)
					t.UDH = nil
					if set, err := coll.Collect(t); err != nil || len(set) != 1 {
						prob("single from the handler: %v %v", set, err)
					}
				case 2:
					if re {
						// all of the expired segments, as though resent
						for i, t := range p {
							if t == nil {
								continue
							}
							if set, err := coll.Collect(*t); err != nil || set != nil {
								prob("segment %d resent from the handler: %v %v", i+1, set, err)
							}
						}
					}
				case 3:
					coll.Close()
					if _, err := coll.Collect(buildSeg(rr, m, 1, me)); !errors.Is(err, sms.ErrClosed) {
						prob("collect in the handler after close: %v", err)
					}
				case 4:
					<-release
				}
			}))
			want := 0
			next := 1
			first := map[cmsg]bool{}
			for _, m := range keys {
				if r.P(3, 4) || want == 0 {
					if set, err := coll.Collect(buildSeg(r, m, r.Range(1, m.segs), next)); err != nil || set != nil {
						prob("first segment: %v %v", set, err)
					}
					next++
					first[m] = true
					want++
					if act == 3 {
						break // one closes
					}
				}
			}
			time.Sleep(d)
			synctest.Wait()
			k.C.Beat()
			if act == 4 {
				// the collector remains usable while its handlers block
				m := cmsg{true, 0x91, "blocked", 77, 3}
				for q := 1; q <= 3; q++ {
					set, err := coll.Collect(buildSeg(r, m, q, 5000+q))
					if err != nil || (set != nil) != (q == 3) {
						prob("segment %d while a handler blocks: %v %v", q, set, err)
					}
				}
				if p := coll.Pipes(); len(p) != 0 {
					prob("%d pipes while handlers block", len(p))
				}
				m.ref++
				coll.Collect(buildSeg(r, m, 1, 6000))
				time.Sleep(d)
				synctest.Wait()
				want++
			}
			mu.Lock()
			n := len(calls)
			mu.Unlock()
			if n != want {
				prob("%d of %d pending messages expired on time", n, want)
			}
			if act == 4 {
				if r.P(1, 2) {
					coll.Close()
				}
				close(release)
			}
			time.Sleep(10 * d)
			synctest.Wait()
			mu.Lock()
			total := len(calls)
			mu.Unlock()
			if act == 2 {
				want += min(3, want)
				// those resent may themselves expire, up to the limit
				if total != len(first)+3 {
					prob("%d expiries, want %d", total, len(first)+3)
				}
			} else if total != want {
				prob("%d expiries, want %d", total, want)
			}
			k.Input("handler", acts[act], "timeout", d, "messages", len(first), "expired", calls)
			k.Seen("handlers", act, strings.Join(calls, ";"), len(keys))
			k.C.Count("handler."+acts[act], int64(total))
			mu.Lock()
			ps := problems
			mu.Unlock()
			for _, p := range ps {
				k.Fail("handler", "handler which %s: %s", acts[act], p)
			}
			if act != 3 {
				if p := coll.Pipes(); len(p) != 0 && act != 4 {
					k.Fail("handler", "%d pipes remain after expiry", len(p))
				}
			}
			coll.Close()
		})
	})
	// closing with messages pending
	c.Run("close", c.N(600), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			s := newSim(k, r, genKeys(r, r.Range(1, 8)), time.Duration(r.Range(1, 5000))*time.Millisecond, true)
			s.timed = true
			s.run(simCfg{steps: r.Range(1, 30), dups: 5, pipes: 5, moves: 5, closing: true})
			k.C.Count("pending_at_close", int64(len(s.pipes)))
			k.Input("timeout", s.d, "steps", strings.Join(s.trace, "\n    "))
			k.Seen(strings.Join(s.trace, ";"))
		})
	})
	// closing with many messages pending
	c.Run("closecrowd", c.N(6), func(k *mon.Case) {
		r := k.R()
		bubble(k, func() {
			s := newSim(k, r, crowd(r, pick(r, []int{300, 1200, 5000, 12000})), pick(r, []time.Duration{time.Second, time.Hour}), true)
			s.timed = true
			s.feedCrowd(r.Range(5, 60))
			k.C.Count("pending_at_close", int64(len(s.pipes)))
			k.Input("messages", len(s.keys))
			k.Seen("closecrowd", strings.Join(s.trace, ";"))
			if !s.bad {
				s.shut(simCfg{})
			}
		})
	})
	// closing while in use
	c.Run("closing", c.N(60), func(k *mon.Case) {
		r := k.R()
		d := time.Duration(pick(r, []int{200, 1000, 1000000})) * time.Microsecond
		var after, handled atomic.Int64
		coll := sms.NewCollector(sms.WithReassemblyTimeout(d, func([]*tpdu.TPDU) { handled.Add(1) }))
		keys := genKeys(r, 20)
		gs := 6
		type step struct {
			t tpdu.TPDU
		}
		plans := make([][]step, gs)
		for g := range plans {
			for i := 0; i < 150; i++ {
				m := pick(r, keys)
				plans[g] = append(plans[g], step{buildSeg(r, m, r.Range(1, m.segs), g*1000+i)})
			}
		}
		var closed atomic.Bool
		var bad atomic.Pointer[string]
		at := r.IntN(140)
		together(gs, func(g int) {
			for i, p := range plans[g] {
				if i == at && g < 2 {
					coll.Close()
					closed.Store(true)
				}
				c := closed.Load()
				set, err := coll.Collect(p.t)
				if c {
					after.Add(1)
					if !errors.Is(err, sms.ErrClosed) || set != nil {
						x := fmt.Sprintf("collect after close returned %v, %v", segIDs(set), err)
						bad.Store(&x)
					}
				}
				if i%20 == 7 {
					coll.Pipes()
				}
			}
		})
		k.C.Beat()
		k.Input("timeout", d, "closed at", at, "collects after close", after.Load())
		k.Seen("closing", k.I, after.Load())
		k.C.Count("collects_after_close", after.Load())
		if b := bad.Load(); b != nil {
			k.Fail("closed", "%s", *b)
		}
		// anything already firing is done well before this
		if d == time.Millisecond && k.I < 20 {
			time.Sleep(30 * time.Millisecond)
			h := handled.Load()
			time.Sleep(10 * time.Millisecond)
			if x := handled.Load(); x != h {
				k.C.Count("late_handlers", x-h)
			}
		}
	})
	// closing as some of the timeouts have fired, but are yet to be handled
	c.Run("closing-fired", c.N(40), func(k *mon.Case) { closingFired(k) })
	c.Run("reentry-fired", c.N(40), func(k *mon.Case) { reentryFired(k) })
	c.Run("linear", c.N(400), func(k *mon.Case) { linear(k, 35) })
	c.Run("torrent", c.N(40), func(k *mon.Case) { torrent(k, true) })
}

// reentryFired has a segment arrive after the timer of its message has fired,
// and before the collector has dealt with it, as pending does, with a handler
// which uses the collector, closes it, or waits for others to have done so.
func reentryFired(k *mon.Case) {
	r := k.R()
	m := cmsg{r.P(1, 2), 0x91, genNumber(r), r.IntN(65536), r.Range(2, 4)}
	d := time.Duration(r.Range(3, 12)) * time.Millisecond
	other := buildSeg(r, cmsg{true, 0x91, "other", 1, 2}, 1, 900)
	other.UDH = nil
	act := r.IntN(4)
	what := []string{"reads the pipes", "collects", "closes the collector", "waits for others"}[act]
	held, used := make(chan struct{}), make(chan struct{})
	calls := make(chan []int, 20)
	var first sync.Once
	var coll *sms.Collector
	coll = sms.NewCollector(sms.WithReassemblyTimeout(d, func(p []*tpdu.TPDU) {
		ids := segIDs(p)
		switch act {
		case 0:
			coll.Pipes()
		case 1:
			_, _ = coll.Collect(other)
		case 2:
			coll.Close()
		case 3:
			first.Do(func() { close(held) })
			<-used
		}
		calls <- ids
	}))
	l, ok := any(coll).(sync.Locker)
	if !ok {
		k.C.Count("reentry_no_lock", 1)
		return
	}
	k.Input("message", m.String(), "timeout", d, "handler which", what)
	order := r.Perm(m.segs)
	set, err := coll.Collect(buildSeg(r, m, order[0]+1, 1))
	if err != nil || set != nil {
		k.Fail("reentry", "first segment: %v, %v", segIDs(set), err)
		return
	}
	l.Lock()
	done := make(chan struct{})
	seg := buildSeg(r, m, order[1]+1, 2)
	go func() {
		defer close(done)
		_, _ = coll.Collect(seg)
	}()
	time.Sleep(d + time.Duration(r.Range(1, 10))*time.Millisecond)
	l.Unlock()
	within := func(what string, c <-chan struct{}) bool {
		limit := time.After(20 * time.Second)
		for {
			select {
			case <-c:
				return true
			case <-time.After(50 * time.Millisecond):
				k.C.Beat()
			case <-limit:
				k.Fail("reentry", "%s: stalled", what)
				return false
			}
		}
	}
	if !within("a segment collected as the timeout fires", done) {
		return
	}
	if act == 3 {
		if !within("the handler to be called", held) {
			return
		}
		other := make(chan struct{})
		go func() {
			defer close(other)
			coll.Pipes()
			_, _ = coll.Collect(seg)
			coll.Close()
		}()
		if !within("use of the collector while its handler waits", other) {
			return
		}
		close(used)
	}
	// each set handed over once its handler has returned
	got := make(chan struct{})
	var sets [][]int
	go func() {
		defer close(got)
		sets = append(sets, <-calls)
		for {
			select {
			case s := <-calls:
				sets = append(sets, s)
			case <-time.After(3 * d):
				return
			}
		}
	}()
	if !within("the handler to return", got) {
		return
	}
	k.Seen("reentry", act, m.segs, fmt.Sprint(order, sets))
	k.C.Count("reentry."+what, int64(len(sets)))
	for _, s := range sets {
		if len(s) == m.segs && len(sets) > 1 {
			k.C.Count("reentry_renewed", 1)
			break
		}
	}
	coll.Close()
}
