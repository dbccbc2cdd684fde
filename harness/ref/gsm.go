package ref

import (
	"sort"
	"unicode/utf8"
)

// Esc is the GSM7 escape septet.
const Esc = 0x1b

// Pack packs septets LSB first after fill zero bits, as per 23.038 6.1.2.1.
func Pack(septets []byte, fill int) []byte {
	bits := make([]byte, 0, fill+7*len(septets))
	for i := 0; i < fill; i++ {
		bits = append(bits, 0)
	}
	for _, s := range septets {
		for b := 0; b < 7; b++ {
			bits = append(bits, (s>>b)&1)
		}
	}
	out := make([]byte, (len(bits)+7)/8)
	for i, b := range bits {
		out[i/8] |= b << (i % 8)
	}
	return out
}

// Unpack extracts all complete septets following the fill bits.
func Unpack(p []byte, fill int) []byte {
	n := (8*len(p) - fill) / 7
	if n < 0 {
		n = 0
	}
	out := make([]byte, n)
	for i := 0; i < n*7; i++ {
		pos := fill + i
		bit := (p[pos/8] >> (pos % 8)) & 1
		out[i/7] |= bit << (i % 7)
	}
	return out
}

// Lock returns the locking table for nli, which is the default table where the
// language has none.
func Lock(nli int) map[byte]rune {
	if nli < 0 || nli >= len(lockTable) {
		return lockTable[0]
	}
	return lockTable[nli]
}

// Shift returns the single shift table for nli.
func Shift(nli int) map[byte]rune {
	if nli < 0 || nli >= len(shiftTable) {
		return shiftTable[0]
	}
	return shiftTable[nli]
}

func invert(m map[byte]rune) map[rune]byte {
	keys := make([]int, 0, len(m))
	for k := range m {
		keys = append(keys, int(k))
	}
	sort.Sort(sort.Reverse(sort.IntSlice(keys)))
	inv := map[rune]byte{}
	for _, k := range keys { // lowest wins
		inv[m[byte(k)]] = byte(k)
	}
	return inv
}

var lockInv, shiftInv [14]map[rune]byte

func init() {
	for i := range lockInv {
		lockInv[i] = invert(lockTable[i])
		shiftInv[i] = invert(shiftTable[i])
	}
	// the default table as printed in 23.038 6.2.1
	const def = "@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&'()*+,-./0123456789:;<=>?" +
		"¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà"
	i := 0
	for _, r := range def {
		if lockTable[0][byte(i)] != r {
			panic("harness: default table")
		}
		i++
	}
	if i != 128 || len(lockTable[0]) != 128 {
		panic("harness: default table size")
	}
}

// LockInv and ShiftInv return the encoding tables.
func LockInv(nli int) map[rune]byte {
	if nli < 0 || nli >= 14 {
		return lockInv[0]
	}
	return lockInv[nli]
}

// ShiftInv returns the encoding single shift table.
func ShiftInv(nli int) map[rune]byte {
	if nli < 0 || nli >= 14 {
		return shiftInv[0]
	}
	return shiftInv[nli]
}

// EncodeGSM encodes text into septets; ok is false if some character is not
// available in the tables.
func EncodeGSM(text string, lock, shift map[rune]byte) (out []byte, ok bool) {
	for _, r := range text {
		if r == Esc {
			return nil, false
		}
		if g, ok := lock[r]; ok {
			out = append(out, g)
		} else if g, ok := shift[r]; ok {
			out = append(out, Esc, g)
		} else {
			return nil, false
		}
	}
	return out, true
}

// DecodeGSM decodes septets. In strict mode ok is false if a septet has no
// character; bad is that septet.
func DecodeGSM(septets []byte, lock, shift map[byte]rune, strict bool) (text string, bad byte, ok bool) {
	var out []rune
	for i := 0; i < len(septets); i++ {
		g := septets[i]
		if g == Esc {
			if i+1 == len(septets) {
				out = append(out, ' ') // truncated escape
				break
			}
			i++
			g = septets[i]
			if g == Esc {
				out = append(out, ' ') // reserved for another extension
				continue
			}
			if r, ok := shift[g]; ok {
				out = append(out, r)
				continue
			}
			if strict {
				return "", g, false
			}
		}
		if r, ok := lock[g]; ok {
			out = append(out, r)
			continue
		}
		if strict {
			return "", g, false
		}
		out = append(out, ' ')
	}
	return string(out), 0, true
}

// Alphabet values.
const (
	A7 = iota
	A8
	AUCS2
)

// Selected is the outcome of the alphabet and language selection.
type Selected struct {
	Alpha int
	Lock  int // 0 is default
	Shift int
	UD    []byte
}

// Select applies the documented selection policy to a message: default GSM7,
// then each locking table with default shift, then default with each shift
// table, then both for the same language, else UCS2.
func Select(text string, locking, shift []int) Selected {
	if ud, ok := EncodeGSM(text, lockInv[0], shiftInv[0]); ok {
		return Selected{A7, 0, 0, ud}
	}
	for _, n := range locking {
		if ud, ok := EncodeGSM(text, LockInv(n), shiftInv[0]); ok {
			return Selected{A7, n, 0, ud}
		}
	}
	for _, n := range shift {
		if ud, ok := EncodeGSM(text, lockInv[0], ShiftInv(n)); ok {
			return Selected{A7, 0, n, ud}
		}
	}
	for _, n := range locking {
		for _, m := range shift {
			if m != n {
				continue
			}
			if ud, ok := EncodeGSM(text, LockInv(n), ShiftInv(n)); ok {
				return Selected{A7, n, n, ud}
			}
		}
	}
	return Selected{AUCS2, 0, 0, EncodeUCS2(text)}
}

// EncodeUCS2 is UTF-16BE.
func EncodeUCS2(text string) []byte {
	var out []byte
	for _, r := range text {
		if r >= 0x10000 {
			v := r - 0x10000
			h, l := 0xd800+(v>>10), 0xdc00+(v&0x3ff)
			out = append(out, byte(h>>8), byte(h), byte(l>>8), byte(l))
		} else {
			if r >= 0xd800 && r < 0xe000 {
				r = utf8.RuneError
			}
			out = append(out, byte(r>>8), byte(r))
		}
	}
	return out
}

// DecodeUCS2 decodes UTF-16BE, with unpaired surrogates becoming U+FFFD. A
// surrogate in the final position is returned as dangling, not decoded.
func DecodeUCS2(b []byte) (out []rune, dangling []byte, odd bool) {
	if len(b)%2 == 1 {
		return nil, nil, true
	}
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = uint16(b[2*i])<<8 | uint16(b[2*i+1])
	}
	for i := 0; i < len(u); i++ {
		c := rune(u[i])
		if c < 0xd800 || c >= 0xe000 {
			out = append(out, c)
			continue
		}
		if i == len(u)-1 {
			return out, b[2*i:], false
		}
		n := rune(u[i+1])
		if c < 0xdc00 && n >= 0xdc00 && n < 0xe000 {
			out = append(out, (c-0xd800)<<10+(n-0xdc00)+0x10000)
			i++
			continue
		}
		out = append(out, utf8.RuneError)
	}
	return out, nil, false
}

// Units splits encoded user data into indivisible characters.
func Units(ud []byte, alpha int) [][]byte {
	var out [][]byte
	for i := 0; i < len(ud); {
		n := 1
		switch alpha {
		case A7:
			if ud[i] == Esc {
				n = 2
			}
		case AUCS2:
			n = 2
			if i+1 < len(ud) && ud[i]&0xfc == 0xd8 {
				n = 4
			}
		}
		if i+n > len(ud) {
			n = len(ud) - i
		}
		out = append(out, ud[i:i+n])
		i += n
	}
	return out
}

// Chunks fills blocks of bs greedily with whole characters.
func Chunks(ud []byte, alpha, bs int) [][]byte {
	var out [][]byte
	var cur []byte
	for _, u := range Units(ud, alpha) {
		if len(cur) > 0 && len(cur)+len(u) > bs {
			out = append(out, cur)
			cur = nil
		}
		cur = append(cur, u...)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out
}
