package checks

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"

	"verifharness/mon"
	"verifharness/ref"
)

type pduSMSC = pdumode.SMSCAddress

// ---- text generation

var (
	runesOnce sync.Once
	lockRunes [14][]rune // characters of the tables, in septet order
	shiftRune [14][]rune
	newRunes  [14][]rune // characters in the tables for nli but not the default
	newShift  [14][]rune
)

func initRunes() {
	runesOnce.Do(func() {
		for n := 0; n < 14; n++ {
			for s := 0; s < 128; s++ {
				if r, ok := ref.Lock(n)[byte(s)]; ok && s != ref.Esc {
					lockRunes[n] = append(lockRunes[n], r)
					if _, ok := ref.LockInv(0)[r]; !ok {
						newRunes[n] = append(newRunes[n], r)
					}
				}
				if r, ok := ref.Shift(n)[byte(s)]; ok {
					shiftRune[n] = append(shiftRune[n], r)
					if _, ok := ref.ShiftInv(0)[r]; !ok {
						newShift[n] = append(newShift[n], r)
					}
				}
			}
		}
	})
}

var bmp = []rune("中文字符Ж日本語한국어☺αЯ\u2028\ufffd\uffff\ue000\ud7ff\x00\x1b")
var astral = []rune("😁😂🀄𝄞𐍈\U0010ffff\U00010000")

func pick[T any](r *mon.Rng, s []T) T { return s[r.IntN(len(s))] }

// text kinds
const (
	kDefault = iota
	kExt
	kLock
	kShift
	kBoth
	kMixed
	kBMP
	kAstral
	kASCII
	kInvalid
	kKinds
)

// genText generates about n characters of text. The nli is the language used.
func genText(r *mon.Rng, kind, nli, n int) string {
	initRunes()
	var out []rune
	add := func(set []rune) {
		if len(set) == 0 {
			set = lockRunes[0]
		}
		out = append(out, pick(r, set))
	}
	for i := 0; i < n; i++ {
		switch kind {
		case kDefault:
			add(lockRunes[0])
		case kExt:
			if r.P(2, 3) {
				add(shiftRune[0])
			} else {
				add(lockRunes[0])
			}
		case kLock:
			if r.P(1, 3) {
				add(newRunes[nli])
			} else {
				add(lockRunes[nli])
			}
		case kShift:
			if r.P(1, 2) {
				add(shiftRune[nli])
			} else {
				add(lockRunes[0])
			}
		case kBoth:
			switch r.IntN(3) {
			case 0:
				add(newRunes[nli])
			case 1:
				add(shiftRune[nli])
			default:
				add(lockRunes[nli])
			}
		case kMixed:
			switch r.IntN(4) {
			case 0:
				m := r.IntN(14)
				add(lockRunes[m])
			case 1:
				m := r.IntN(14)
				add(shiftRune[m])
			default:
				add(lockRunes[0])
			}
		case kBMP:
			if r.P(1, 2) {
				add(bmp)
			} else {
				c := rune(r.IntN(0x10000))
				if c >= 0xd800 && c < 0xe000 {
					c -= 0x800
				}
				out = append(out, c)
			}
		case kAstral:
			switch r.IntN(6) {
			case 0:
				out = append(out, rune(0x10000+r.IntN(0x100000)))
			case 1, 2:
				add(astral)
			default:
				add(bmp)
			}
		case kASCII:
			out = append(out, rune(r.IntN(128)))
		case kInvalid:
			add(lockRunes[0])
		}
	}
	s := string(out)
	if kind == kInvalid && len(s) > 0 {
		b := []byte(s)
		for i := 0; i < 1+len(b)/8; i++ {
			b[r.IntN(len(b))] = byte(0x80 + r.IntN(0x80))
		}
		s = string(b)
	}
	return s
}

// genLen picks a message length which favours segment boundaries.
func genLen(r *mon.Rng, max int) int {
	var n int
	switch r.IntN(8) {
	case 0:
		n = r.Range(1, 12)
	case 1, 2:
		n = pick(r, []int{67, 70, 133, 134, 140, 153, 155, 160, 149, 152, 66, 76, 128})*r.Range(1, 4) + r.Range(-4, 4)
	case 3:
		n = r.Range(1, max)
	case 4:
		n = r.Range(50, 80)
	case 5:
		n = r.Range(125, 165)
	case 6:
		n = r.Range(250, 330)
	default:
		n = r.Range(1, 400)
	}
	if n > max {
		n = r.Range(1, max)
	}
	if n < 1 {
		n = 1
	}
	return n
}

// ---- models

const addrDigits = "0123456789*#abc"

func genDigits(r *mon.Rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = addrDigits[r.IntN(len(addrDigits))]
	}
	return string(b)
}

func genNumber(r *mon.Rng) string {
	b := make([]byte, r.Range(1, 15))
	for i := range b {
		b[i] = byte('0' + r.IntN(10))
	}
	return string(b)
}

// genAddr generates a representable address.
func genAddr(r *mon.Rng) ref.Addr {
	initRunes()
	a := ref.Addr{TOA: 0x80 | byte(r.IntN(128))}
	if r.P(1, 8) {
		a.TOA &^= 0x80
	}
	if r.P(1, 3) {
		a.TOA = a.TOA&^0x70 | 0x50
	}
	if a.Alnum() {
		n := r.Range(0, 11)
		if r.P(1, 8) {
			n = r.Range(0, 140)
		}
		var t []rune
		for i := 0; i < n; i++ {
			t = append(t, pick(r, lockRunes[0]))
		}
		a.Text = string(t)
		return a
	}
	n := r.Range(0, 20)
	if r.P(1, 8) {
		n = r.Range(0, 255)
	}
	a.Text = genDigits(r, n)
	return a
}

func genStamp(r *mon.Rng) ref.Stamp {
	for {
		s := ref.Stamp{Y: r.IntN(100), Mo: r.Range(1, 12), D: r.Range(1, 31), H: r.IntN(24), Mi: r.IntN(60), S: r.IntN(60)}
		switch r.IntN(4) {
		case 0:
		case 1:
			s.Quarters = r.Range(-56, 56)
		default:
			s.Quarters = r.Range(-79, 79)
		}
		if s.Valid() {
			return s
		}
	}
}

func stampTime(s ref.Stamp) tpdu.Timestamp {
	loc := time.UTC
	if s.Quarters != 0 {
		loc = time.FixedZone("X", s.Quarters*900)
	}
	return tpdu.Timestamp{Time: time.Date(s.Year(), time.Month(s.Mo), s.D, s.H, s.Mi, s.S, 0, loc)}
}

// stampDiff compares a timestamp with the model.
func stampDiff(name string, s ref.Stamp, g tpdu.Timestamp) string {
	if !s.Valid() {
		return "" // not a calendar date: how it is normalised is not specified
	}
	_, off := g.Zone()
	if g.Unix() != s.Unix() || off != s.Quarters*900 || g.Nanosecond() != 0 {
		return fmt.Sprintf("%s is %v (unix %d, offset %d), want %+v (unix %d, offset %d)", name, g, g.Unix(), off, s, s.Unix(), s.Quarters*900)
	}
	return ""
}

func genVP(r *mon.Rng) ref.VP {
	v := ref.VP{Format: r.IntN(4)}
	switch v.Format {
	case ref.VPAbsolute:
		v.Stamp = genStamp(r)
	case ref.VPRelative:
		v.Dur = ref.RelToDur(byte(r.IntN(256)))
	case ref.VPEnhanced:
		v.EFI = byte(r.IntN(32))<<3 | byte(r.IntN(4))
		switch v.EFI & 7 {
		case 1:
			v.Dur = ref.RelToDur(byte(r.IntN(256)))
		case 2:
			v.Dur = time.Duration(r.IntN(256)) * time.Second
		case 3:
			v.Dur = time.Duration(r.IntN(100))*time.Hour + time.Duration(r.IntN(60))*time.Minute + time.Duration(r.IntN(60))*time.Second
		}
	}
	return v
}

func toVP(v ref.VP) tpdu.ValidityPeriod {
	g := tpdu.ValidityPeriod{}
	switch v.Format {
	case ref.VPAbsolute:
		g.SetAbsolute(stampTime(v.Stamp))
	case ref.VPRelative:
		g.SetRelative(v.Dur)
	case ref.VPEnhanced:
		g.SetEnhanced(v.Dur, v.EFI)
	}
	return g
}

// rawVP is toVP without recourse to the library's setters.
func rawVP(v ref.VP) tpdu.ValidityPeriod {
	g := tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(v.Format)}
	switch v.Format {
	case ref.VPAbsolute:
		g.Time = stampTime(v.Stamp)
	case ref.VPEnhanced:
		g.EFI = v.EFI
		fallthrough
	case ref.VPRelative:
		g.Duration = v.Dur
	}
	return g
}

func vpDiff(v ref.VP, g tpdu.ValidityPeriod) string {
	if int(g.Format) != v.Format {
		return fmt.Sprintf("VP format %d, want %d", g.Format, v.Format)
	}
	switch v.Format {
	case ref.VPAbsolute:
		return stampDiff("VP", v.Stamp, g.Time)
	case ref.VPRelative:
		if g.Duration != v.Dur {
			return fmt.Sprintf("VP duration %v, want %v", g.Duration, v.Dur)
		}
	case ref.VPEnhanced:
		if g.EFI != v.EFI {
			return fmt.Sprintf("VP EFI %02x, want %02x", g.EFI, v.EFI)
		}
		if g.Duration != v.Dur {
			return fmt.Sprintf("VP duration %v, want %v", g.Duration, v.Dur)
		}
	}
	return ""
}

// genUDH generates n information elements of at most max octets in total,
// without concatenation or language elements unless any is set.
func genUDH(r *mon.Rng, n, max int, any bool) []ref.IE {
	var h []ref.IE
	small := n > 1 && r.P(1, 12)
	if small { // many elements with little or no data
		n = r.Range(10, 127)
	}
	for i := 0; i < n; i++ {
		id := byte(r.IntN(256))
		if r.P(1, 2) {
			id = byte(r.IntN(0x28))
		}
		if !any && (id == 0 || id == 8 || id == 24 || id == 25) {
			id = 0x70
		}
		room := max - ref.UDHLen(h) - 2
		if room < 0 {
			break
		}
		l := r.IntN(6)
		if r.P(1, 10) {
			l = r.IntN(room + 1)
		}
		if small {
			l = b2i(r.P(1, 20))
		}
		if n == 1 && r.P(1, 16) { // bare
			l = 0
			if any && r.P(1, 2) {
				id = byte(r.IntN(10))
			}
		}
		if any {
			switch id {
			case 0:
				l = pick(r, []int{3, 3, 3, 2, 4, 0})
			case 8:
				l = pick(r, []int{4, 4, 4, 3, 5, 0})
			}
		}
		if l > room {
			l = room
		}
		h = append(h, ref.IE{ID: id, Data: r.Bytes(l)})
	}
	return h
}

func toUDH(h []ref.IE) tpdu.UserDataHeader {
	var u tpdu.UserDataHeader
	for _, e := range h {
		u = append(u, tpdu.InformationElement{ID: e.ID, Data: append([]byte(nil), e.Data...)})
	}
	return u
}

func udhDiff(h []ref.IE, u tpdu.UserDataHeader) string {
	if len(h) != len(u) {
		return fmt.Sprintf("UDH has %d elements %v, want %d %v", len(u), u, len(h), h)
	}
	for i := range h {
		if h[i].ID != u[i].ID || !bytes.Equal(h[i].Data, u[i].Data) {
			return fmt.Sprintf("UDH element %d is %v, want %v", i, u[i], h[i])
		}
	}
	return ""
}

// dcs octets by alphabet
var dcsFor [3][]byte
var dcsBad []byte

func init() {
	for d := 0; d < 256; d++ {
		a, _, _, ok := ref.DCS(byte(d))
		if !ok {
			dcsBad = append(dcsBad, byte(d))
			continue
		}
		dcsFor[a] = append(dcsFor[a], byte(d))
	}
}

// genTPDU generates a representable TPDU of the kind.
func genTPDU(r *mon.Rng, kind int) *ref.TPDU {
	t := &ref.TPDU{Kind: kind, FO: byte(kind >> 1)}
	t.FO |= byte(r.IntN(64)) << 2
	t.FO &^= 0x40
	t.PID = byte(r.Uint32())
	alpha := r.IntN(3)
	t.DCS = pick(r, dcsFor[alpha])
	t.PI = byte(r.IntN(8))
	if r.P(1, 4) {
		t.PI |= byte(r.IntN(32)) << 3
	}
	switch kind {
	case ref.Deliver:
		t.Addr, t.SCTS = genAddr(r), genStamp(r)
	case ref.Submit:
		t.MR, t.Addr, t.VP = byte(r.Uint32()), genAddr(r), genVP(r)
		t.FO = t.FO&^0x18 | byte(t.VP.Format)<<3
	case ref.Command:
		t.MR, t.CT, t.MN, t.Addr = byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), genAddr(r)
		alpha = ref.A8
		t.DCS = 4
	case ref.StatusReport:
		t.MR, t.Addr, t.SCTS, t.DT, t.ST = byte(r.Uint32()), genAddr(r), genStamp(r), genStamp(r), byte(r.Uint32())
	case ref.SubmitReport:
		t.SCTS = genStamp(r)
		fallthrough
	case ref.DeliverReport:
		t.FCS = byte(r.Range(1, 255))
	}
	report := kind == ref.StatusReport || kind == ref.SubmitReport || kind == ref.DeliverReport
	if report {
		if t.PI&1 == 0 {
			t.PID = 0
		}
		if t.PI&2 == 0 {
			t.DCS, alpha = 0, ref.A7
		}
		if t.PI&4 == 0 {
			return t
		}
	} else {
		t.PI = 0
	}
	if r.P(1, 2) {
		t.UDH = genUDH(r, r.Range(1, 4), 130, true)
		if r.P(1, 30) {
			max := 254
			if alpha == ref.A7 {
				max = 222
			}
			t.UDH = genUDH(r, r.Range(1, 9), max, true)
		}
	}
	if len(t.UDH) > 0 {
		t.FO |= 0x40
	}
	hl := len(ref.UDHBytes(t.UDH))
	room := 255 - hl
	if alpha == ref.A7 {
		room = 255 - (hl*8+6)/7
	}
	lim := 140 - hl
	if lim < 0 || r.P(1, 8) {
		lim = room
	}
	n := r.IntN(lim + 1)
	switch r.IntN(6) {
	case 0:
		n = 0
	case 1:
		n = r.IntN(min(lim+1, 18))
	case 2:
		n = lim
	}
	if n > room {
		n = room
	}
	if alpha == ref.AUCS2 {
		n &^= 1
	}
	t.UD = r.Bytes(n)
	if alpha == ref.A7 {
		for i := range t.UD {
			t.UD[i] &= 0x7f
		}
		if n > 0 && r.P(1, 3) {
			t.UD[n-1] = pick(r, []byte{0, 0x0d, 0x1b, 0x40})
		}
	}
	return t
}

// toTPDU builds the equivalent TPDU of the code under test.
func toTPDU(m *ref.TPDU) *tpdu.TPDU {
	a := tpdu.Address{TOA: m.Addr.TOA, Addr: m.Addr.Text}
	t := &tpdu.TPDU{
		Direction:  tpdu.Direction(m.Kind & 1),
		FirstOctet: tpdu.FirstOctet(m.FO),
		MR:         m.MR, PID: m.PID, DCS: tpdu.DCS(m.DCS), CT: m.CT, MN: m.MN, FCS: m.FCS, PI: tpdu.PI(m.PI), ST: m.ST,
		UDH: toUDH(m.UDH),
		UD:  append([]byte(nil), m.UD...),
	}
	switch m.Kind {
	case ref.Deliver:
		t.OA, t.SCTS = a, stampTime(m.SCTS)
	case ref.Submit:
		t.DA, t.VP = a, toVP(m.VP)
	case ref.Command:
		t.DA = a
	case ref.StatusReport:
		t.RA, t.SCTS, t.DT = a, stampTime(m.SCTS), stampTime(m.DT)
	case ref.SubmitReport:
		t.SCTS = stampTime(m.SCTS)
	}
	return t
}

func addrDiff(name string, a ref.Addr, g tpdu.Address) string {
	if g.TOA != a.TOA || g.Addr != a.Text {
		return fmt.Sprintf("%s is %02x %q, want %02x %q", name, g.TOA, g.Addr, a.TOA, a.Text)
	}
	return ""
}

// tpduDiff compares a decoded TPDU with the model.
func tpduDiff(m *ref.TPDU, g *tpdu.TPDU) string {
	if int(g.Direction) != m.Kind&1 || byte(g.FirstOctet) != m.FO {
		return fmt.Sprintf("direction %d first octet %02x, want %d %02x", g.Direction, byte(g.FirstOctet), m.Kind&1, m.FO)
	}
	if int(g.SmsType()) != m.Kind {
		return fmt.Sprintf("type %v, want %v", g.SmsType(), ref.TypeName[m.Kind])
	}
	d := ""
	or := func(s string) {
		if d == "" {
			d = s
		}
	}
	b := func(name string, g, m byte) {
		if g != m {
			or(fmt.Sprintf("%s is %02x, want %02x", name, g, m))
		}
	}
	none := ref.Addr{}
	oa, da, ra := none, none, none
	switch m.Kind {
	case ref.Deliver:
		oa = m.Addr
	case ref.Submit, ref.Command:
		da = m.Addr
	case ref.StatusReport:
		ra = m.Addr
	}
	or(addrDiff("OA", oa, g.OA))
	or(addrDiff("DA", da, g.DA))
	or(addrDiff("RA", ra, g.RA))
	b("MR", g.MR, m.MR)
	b("PID", g.PID, m.PID)
	b("DCS", byte(g.DCS), m.DCS)
	b("CT", g.CT, m.CT)
	b("MN", g.MN, m.MN)
	b("FCS", g.FCS, m.FCS)
	b("PI", byte(g.PI), m.PI)
	b("ST", g.ST, m.ST)
	switch m.Kind {
	case ref.Deliver, ref.SubmitReport, ref.StatusReport:
		or(stampDiff("SCTS", m.SCTS, g.SCTS))
	default:
		if !g.SCTS.IsZero() {
			or("SCTS set")
		}
	}
	if m.Kind == ref.StatusReport {
		or(stampDiff("DT", m.DT, g.DT))
	} else if !g.DT.IsZero() {
		or("DT set")
	}
	or(vpDiff(m.VP, g.VP))
	or(udhDiff(m.UDH, g.UDH))
	if !bytes.Equal(m.UD, g.UD) {
		or(fmt.Sprintf("UD is %x, want %x", []byte(g.UD), m.UD))
	}
	return d
}

// guard holds a copy of a slice with spare capacity, to detect writes.
type guard struct {
	b    []byte // len n, cap n+8
	copy []byte
}

func newGuard(b []byte) *guard {
	g := &guard{}
	full := make([]byte, len(b)+8)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xa5
	}
	g.b = full[:len(b)]
	g.copy = append([]byte(nil), full...)
	return g
}

// diff reports a write to the slice or its spare capacity.
func (g *guard) diff() string {
	now := g.b[:cap(g.b)]
	if !bytes.Equal(now, g.copy) {
		return fmt.Sprintf("memory was %x and is %x", g.copy, now)
	}
	return ""
}
