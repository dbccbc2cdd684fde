package ref

import (
	"errors"
	"time"
)

// IE is an information element.
type IE struct {
	ID   byte
	Data []byte
}

// UDHLen is the length of the IEs, without the UDHL octet.
func UDHLen(h []IE) int {
	n := 0
	for _, e := range h {
		n += 2 + len(e.Data)
	}
	return n
}

// UDHBytes is the header with its UDHL.
func UDHBytes(h []IE) []byte {
	if len(h) == 0 {
		return nil
	}
	b := []byte{byte(UDHLen(h))}
	for _, e := range h {
		b = append(b, e.ID, byte(len(e.Data)))
		b = append(b, e.Data...)
	}
	return b
}

// Errors classes of the reference decoder.
var (
	ErrShort    = errors.New("underflow")
	ErrLong     = errors.New("overlength")
	ErrBad      = errors.New("invalid")
	ErrOdd      = errors.New("odd UCS2")
	ErrSpare    = errors.New("has an octet which is not fill beyond the last septet")
	ErrDontCare = errors.New("outside the specified domain")
)

// ParseUDH parses a UDH with UDHL at the start of b.
func ParseUDH(b []byte) (h []IE, n int, err error) {
	if len(b) < 1 {
		return nil, 0, ErrShort
	}
	l := int(b[0])
	if len(b) < 1+l {
		return nil, 0, ErrShort
	}
	p := b[1 : 1+l]
	for len(p) > 0 {
		if len(p) < 2 || len(p) < 2+int(p[1]) {
			return nil, 0, ErrShort
		}
		h = append(h, IE{p[0], append([]byte(nil), p[2:2+int(p[1])]...)})
		p = p[2+int(p[1]):]
	}
	return h, 1 + l, nil
}

// Concat returns the concatenation info: 8 bit reference elements take
// precedence, and the last element of an id wins.
func Concat(h []IE) (segs, seq, ref int, ok bool) {
	last := func(id byte) (IE, bool) {
		var r IE
		f := false
		for _, e := range h {
			if e.ID == id {
				r, f = e, true
			}
		}
		return r, f
	}
	if e, k := last(0); k && len(e.Data) == 3 {
		return int(e.Data[1]), int(e.Data[2]), int(e.Data[0]), true
	}
	if e, k := last(8); k && len(e.Data) == 4 {
		return int(e.Data[2]), int(e.Data[3]), int(e.Data[0])<<8 | int(e.Data[1]), true
	}
	return 0, 0, 0, false
}

const digits = "0123456789*#abc"

// SemiOctets encodes digits, with a 0xF fill for odd counts.
func SemiOctets(d string) ([]byte, bool) {
	var n []byte
	for i := 0; i < len(d); i++ {
		k := -1
		for j := 0; j < len(digits); j++ {
			if digits[j] == d[i] {
				k = j
			}
		}
		if k < 0 {
			return nil, false
		}
		n = append(n, byte(k))
	}
	if len(n)%2 == 1 {
		n = append(n, 0xf)
	}
	b := make([]byte, len(n)/2)
	for i := range b {
		b[i] = n[2*i] | n[2*i+1]<<4
	}
	return b, true
}

// Addr is an address.
type Addr struct {
	TOA  byte
	Text string
}

// Alnum is true for alphanumeric addresses.
func (a Addr) Alnum() bool { return a.TOA&0x70 == 0x50 }

// Bytes encodes the address as in 23.040 9.1.2.5.
func (a Addr) Bytes() ([]byte, bool) {
	if a.Alnum() {
		s, ok := EncodeGSM(a.Text, lockInv[0], nil)
		if !ok {
			return nil, false
		}
		l := (len(s)*7 + 3) / 4
		if l > 255 {
			return nil, false
		}
		return append([]byte{byte(l), a.TOA}, Pack(s, 0)...), true
	}
	s, ok := SemiOctets(a.Text)
	if !ok || len(a.Text) > 255 {
		return nil, false
	}
	return append([]byte{byte(len(a.Text)), a.TOA}, s...), true
}

// ParseAddr parses an address at the start of b.
func ParseAddr(b []byte) (a Addr, n int, err error) {
	if len(b) < 2 {
		return a, 0, ErrShort
	}
	l := int(b[0])
	ol := (l + 1) / 2
	a.TOA = b[1]
	if len(b) < 2+ol {
		return a, 0, ErrShort
	}
	p := b[2 : 2+ol]
	if a.Alnum() {
		s := Unpack(p, 0)
		if k := l * 4 / 7; k < len(s) {
			s = s[:k] // fill septet
		}
		t, _, ok := DecodeGSM(s, lockTable[0], nil, true)
		if !ok {
			return a, 0, ErrBad
		}
		a.Text = t
		return a, 2 + ol, nil
	}
	var t []byte
	for i := 0; i < 2*ol; i++ {
		nib := p[i/2] >> (4 * (i % 2)) & 0xf
		if i == l { // fill position of an odd length
			if nib != 0xf {
				return a, 0, ErrBad
			}
			break
		}
		if nib == 0xf {
			// fill within the digits: fewer digits than the length claims
			return a, 0, ErrDontCare
		}
		t = append(t, digits[nib])
	}
	a.Text = string(t)
	return a, 2 + ol, nil
}

// Stamp is a service centre timestamp, in its components.
type Stamp struct {
	Y, Mo, D, H, Mi, S int // Y is 0..99
	Quarters           int // of an hour east of UTC
}

func bcd(v int) byte { return byte(v%10)<<4 | byte(v/10) }

// Bytes encodes the timestamp.
func (s Stamp) Bytes() []byte {
	q := s.Quarters
	neg := byte(0)
	if q < 0 {
		q, neg = -q, 8
	}
	return []byte{bcd(s.Y), bcd(s.Mo), bcd(s.D), bcd(s.H), bcd(s.Mi), bcd(s.S), bcd(q) | neg}
}

// Year is the full year, with a window of 1970 to 2069.
func (s Stamp) Year() int {
	if s.Y < 70 {
		return 2000 + s.Y
	}
	return 1900 + s.Y
}

var mdays = [13]int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// Valid is true if the stamp is a real calendar date and time.
func (s Stamp) Valid() bool {
	if s.Mo < 1 || s.Mo > 12 || s.H > 23 || s.Mi > 59 || s.S > 59 || s.D < 1 {
		return false
	}
	m := mdays[s.Mo]
	if s.Mo == 2 && leap(s.Year()) {
		m++
	}
	return s.D <= m
}

// Unix is the instant of the stamp, in seconds since 1970, calculated
// independently of the time package.
func (s Stamp) Unix() int64 {
	days := 0
	for y := 1970; y < s.Year(); y++ {
		days += 365
		if leap(y) {
			days++
		}
	}
	for m := 1; m < s.Mo; m++ {
		days += mdays[m]
		if m == 2 && leap(s.Year()) {
			days++
		}
	}
	days += s.D - 1
	return int64(days)*86400 + int64(s.H)*3600 + int64(s.Mi)*60 + int64(s.S) - int64(s.Quarters)*900
}

// ParseStamp parses the seven octets of a timestamp.
func ParseStamp(b []byte) (s Stamp, err error) {
	if len(b) < 7 {
		return s, ErrShort
	}
	f := []*int{&s.Y, &s.Mo, &s.D, &s.H, &s.Mi, &s.S}
	for i, p := range f {
		t, u := int(b[i]&0xf), int(b[i]>>4)
		if t > 9 || u > 9 {
			return s, ErrBad
		}
		*p = t*10 + u
	}
	t, u := int(b[6]&0x7), int(b[6]>>4)
	if u > 9 {
		return s, ErrBad
	}
	s.Quarters = t*10 + u
	if b[6]&8 != 0 {
		s.Quarters = -s.Quarters
	}
	return s, nil
}

// VP formats.
const (
	VPNone = iota
	VPEnhanced
	VPRelative
	VPAbsolute
)

// RelToDur converts TP-VP relative octets, 23.040 9.2.3.12.1.
func RelToDur(b byte) time.Duration {
	v := time.Duration(b)
	switch {
	case b <= 143:
		return (v + 1) * 5 * time.Minute
	case b <= 167:
		return 12*time.Hour + (v-143)*30*time.Minute
	case b <= 196:
		return (v - 166) * 24 * time.Hour
	}
	return (v - 192) * 7 * 24 * time.Hour
}

// DurToRel picks the longest representable period not longer than d, or the
// shortest period if there is none.
func DurToRel(d time.Duration) byte {
	best := byte(0)
	for i := 0; i < 256; i++ {
		if r := RelToDur(byte(i)); r <= d && r >= RelToDur(best) {
			best = byte(i)
		}
	}
	return best
}

// VP is a validity period.
type VP struct {
	Format int
	Stamp  Stamp
	Dur    time.Duration
	EFI    byte
}

// Bytes encodes the VP; ok is false if it is not representable.
func (v VP) Bytes() ([]byte, bool) {
	switch v.Format {
	case VPNone:
		return nil, true
	case VPRelative:
		return []byte{DurToRel(v.Dur)}, true
	case VPAbsolute:
		return v.Stamp.Bytes(), true
	case VPEnhanced:
		b := make([]byte, 7)
		b[0] = v.EFI
		switch v.EFI & 7 {
		case 0:
		case 1:
			b[1] = DurToRel(v.Dur)
		case 2:
			s := v.Dur / time.Second
			if s > 255 {
				s = 255
			}
			b[1] = byte(max(s, 0))
		case 3:
			s := max(0, min(int(v.Dur/time.Second), 99*3600+59*60+59))
			b[1], b[2], b[3] = bcd(s/3600), bcd(s/60%60), bcd(s%60)
		default:
			return nil, false
		}
		return b, true
	}
	return nil, false
}

// ParseVP parses a VP of the format at the start of b.
func ParseVP(b []byte, format int) (v VP, n int, err error) {
	v.Format = format
	switch format {
	case VPNone:
		return v, 0, nil
	case VPRelative:
		if len(b) < 1 {
			return v, 0, ErrShort
		}
		v.Dur = RelToDur(b[0])
		return v, 1, nil
	case VPAbsolute:
		v.Stamp, err = ParseStamp(b)
		return v, 7, err
	}
	if len(b) < 7 {
		return v, 0, ErrShort
	}
	v.EFI = b[0]
	used := 0
	switch b[0] & 7 {
	case 0:
	case 1:
		v.Dur, used = RelToDur(b[1]), 1
	case 2:
		v.Dur, used = time.Duration(b[1])*time.Second, 1
	case 3:
		used = 3
		for i, m := range []time.Duration{time.Hour, time.Minute, time.Second} {
			t, u := b[1+i]&0xf, b[1+i]>>4
			if t > 9 || u > 9 {
				return v, 0, ErrBad
			}
			v.Dur += time.Duration(t*10+u) * m
		}
	default:
		return v, 0, ErrBad
	}
	for _, x := range b[1+used : 7] {
		if x != 0 {
			return v, 0, ErrBad
		}
	}
	return v, 7, nil
}

// DCS groups of 23.038 section 4: alphabet, class (-1 none), compressed; ok is
// false for reserved coding groups.
func DCS(d byte) (alpha, class int, compressed, ok bool) {
	class = -1
	switch g := d >> 4; {
	case g <= 7: // general data coding and automatic deletion
		alpha = int(d >> 2 & 3)
		if alpha == 3 {
			alpha = A7 // reserved, assume GSM7
		}
		if d&0x10 != 0 {
			class = int(d & 3)
		}
		return alpha, class, d&0x20 != 0, true
	case g == 0xc, g == 0xd:
		return A7, -1, false, true
	case g == 0xe:
		return AUCS2, -1, false, true
	case g == 0xf:
		if d&4 != 0 {
			alpha = A8
		}
		return alpha, int(d & 3), false, true
	}
	return A7, -1, false, false
}
