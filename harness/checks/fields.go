package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	Reg["P14"] = p14
	Reg["P15"] = p15
	Reg["P16"] = p16
	Reg["P17"] = p17
	Reg["P18"] = p18
	Reg["P19"] = p19
	Reg["P24"] = p24
}

// p14: user data headers.
func p14(c *mon.Ctx) {
	c.Rule("headers of 0 to 12 information elements with repeated ids, concatenation elements of right and wrong length, and octet strings with inconsistent lengths, against an independent parser. Non-trivial: distinct header octets.")
	history(c, histUDH()...)
	query := func(k *mon.Case, h []ref.IE, u tpdu.UserDataHeader) {
		if u.UDHL() != ref.UDHLen(h) {
			k.Fail("udhl", "UDHL is %d, want %d", u.UDHL(), ref.UDHLen(h))
		}
		for id := 0; id < 256; id++ {
			var all []ref.IE
			for _, e := range h {
				if int(e.ID) == id {
					all = append(all, e)
				}
			}
			ies := u.IEs(byte(id))
			if d := udhDiff(all, tpdu.UserDataHeader(ies)); d != "" {
				k.Fail("ies", "elements with id %d: %s", id, d)
			}
			ie, ok := u.IE(byte(id))
			if ok != (len(all) > 0) {
				k.Fail("ie", "element with id %d found: %v", id, ok)
			} else if ok && (ie.ID != byte(id) || !bytes.Equal(ie.Data, all[len(all)-1].Data)) {
				k.Fail("ie", "element with id %d is %v, want the last %v", id, ie, all)
			} else if !ok && (ie.ID != 0 || ie.Data != nil) {
				k.Fail("ie", "missing element with id %d is %v", id, ie)
			}
		}
		s, q, m, ok := u.ConcatInfo()
		ws, wq, wm, wok := ref.Concat(h)
		if s != ws || q != wq || m != wm || ok != wok {
			k.Fail("concat", "concatenation info is %d %d %d %v, want %d %d %d %v", s, q, m, ok, ws, wq, wm, wok)
		}
		var h8, h16 []ref.IE
		for _, e := range h {
			if e.ID == 0 {
				h8 = append(h8, e)
			}
			if e.ID == 8 {
				h16 = append(h16, e)
			}
		}
		s, q, m, ok = u.ConcatInfo8()
		ws, wq, wm, wok = ref.Concat(h8)
		if s != ws || q != wq || m != wm || ok != wok {
			k.Fail("concat8", "8 bit concatenation info is %d %d %d %v, want %d %d %d %v", s, q, m, ok, ws, wq, wm, wok)
		}
		s, q, m, ok = u.ConcatInfo16()
		ws, wq, wm, wok = ref.Concat(h16)
		if s != ws || q != wq || m != wm || ok != wok {
			k.Fail("concat16", "16 bit concatenation info is %d %d %d %v, want %d %d %d %v", s, q, m, ok, ws, wq, wm, wok)
		}
		_, _, _, wok = ref.Concat(h)
		t := tpdu.TPDU{UDH: u}
		if t.IsSingleSegment() == wok {
			k.Fail("single", "IsSingleSegment is %v for concatenation info %v", t.IsSingleSegment(), wok)
		}
		if t.UDHL() != ref.UDHLen(h) {
			k.Fail("udhl", "TPDU UDHL is %d, want %d", t.UDHL(), ref.UDHLen(h))
		}
	}
	c.Run("headers", c.N(8000), func(k *mon.Case) {
		r := k.R()
		h := genUDH(r, r.IntN(6), 255, true)
		if r.P(1, 6) {
			h = genUDH(r, r.Range(6, 40), 255, true)
		}
		if r.P(1, 3) { // fill the space exactly
			if room := 255 - ref.UDHLen(h) - 2; room >= 0 {
				h = append(h, ref.IE{ID: byte(r.Uint32()), Data: r.Bytes(room)})
			}
		}
		if r.P(1, 3) && len(h) > 1 { // repeat an id
			h[r.IntN(len(h))].ID = h[r.IntN(len(h))].ID
		}
		u := toUDH(h)
		k.Input("udh", u)
		query(k, h, u)
		b, err := u.MarshalBinary()
		want := ref.UDHBytes(h)
		k.Seen("h", want)
		if err != nil || !bytes.Equal(b, want) {
			k.Fail("marshal", "marshalled to %x, %v, want %x", b, err, want)
			return
		}
		if len(h) == 0 {
			return
		}
		tail := r.Bytes(r.IntN(10))
		src := newGuard(append(append([]byte(nil), b...), tail...))
		var v tpdu.UserDataHeader
		var held, was tpdu.UserDataHeader
		if r.P(1, 2) { // a header used before
			x := genUDH(r, r.IntN(8), 255, true)
			v, was = toUDH(x), toUDH(x)
			held = v
		}
		n, err := v.UnmarshalBinary(src.b)
		if !reflect.DeepEqual(held, was) {
			k.Fail("held", "unmarshalling altered the previous header")
		}
		if err != nil || n != len(b) {
			k.Fail("unmarshal", "own output %x read %d octets, %v", b, n, err)
			return
		}
		if d := udhDiff(h, v); d != "" {
			k.Fail("identity", "own output %x: %s", b, d)
		}
		if d := src.diff(); d != "" {
			k.Fail("input-modified", "%s", d)
		}
		for i := range src.b {
			src.b[i] ^= 0xff
		}
		if d := udhDiff(h, v); d != "" {
			k.Fail("aliased", "header changes with the input buffer: %s", d)
		}
	})
	c.Run("octets", c.N(60000), func(k *mon.Case) {
		r := k.R()
		var b []byte
		switch r.IntN(3) {
		case 0:
			b = r.Bytes(r.IntN(12))
			for i := range b {
				b[i] %= 14
			}
		case 1:
			b = append(ref.UDHBytes(genUDH(r, r.Range(1, 5), 60, true)), r.Bytes(r.IntN(4))...)
			if r.P(2, 3) && len(b) > 0 {
				i := r.IntN(len(b))
				b[i] = byte(int(b[i]) + r.Range(-3, 3))
			}
			if r.P(1, 3) {
				b = b[:r.IntN(len(b)+1)]
			}
		case 2:
			b = r.Bytes(r.IntN(40))
			if len(b) > 0 {
				b[0] = byte(r.IntN(len(b) + 2))
			}
		}
		k.Input("src", b)
		h, wn, rerr := ref.ParseUDH(b)
		var v tpdu.UserDataHeader
		n, err := v.UnmarshalBinary(b)
		k.Seen("o", b)
		if rerr != nil {
			c.Count("rejections", 1)
			if err == nil {
				k.Fail("accepted-invalid", "accepted as %v", v)
			} else {
				var de tpdu.DecodeError
				if !errors.As(err, &de) || !errors.Is(de.Err, tpdu.ErrUnderflow) {
					k.Fail("error", "error is %v, want underflow", err)
				}
			}
			return
		}
		if err != nil || n != wn {
			k.Fail("rejected-valid", "read %d octets, %v, want %d", n, err, wn)
			return
		}
		if d := udhDiff(h, v); d != "" {
			k.Fail("parse", "%s", d)
		}
		if r.P(1, 8) {
			query(k, h, v)
		}
	})
}

// usedAddr is an address into which to unmarshal, which may have been used.
func usedAddr(r *mon.Rng) (a tpdu.Address) {
	if r.P(1, 2) {
		a.TOA, a.Addr = byte(r.Uint32()), genDigits(r, r.IntN(24))
	}
	return
}

// p15: addresses.
func p15(c *mon.Ctx) {
	c.Rule("addresses of every type of number and plan, digit strings of 0 to 255 digits and alphanumeric text of 0 to 146 septets, and corrupted encodings, against an independent codec. Non-trivial: distinct addresses and encodings.")
	history(c, histAddress()...)
	c.Run("identity", c.N(40000), func(k *mon.Case) {
		r := k.R()
		m := genAddr(r)
		if r.P(1, 2) { // short lengths, all parities and septet remainders
			if m.Alnum() {
				m.Text = genText(r, kDefault, 0, k.I%24)
				for strings.ContainsRune(m.Text, 0x1b) {
					m.Text = genText(r, kDefault, 0, k.I%24)
				}
			} else {
				m.Text = genDigits(r, k.I%24)
			}
		}
		want, ok := m.Bytes()
		if !ok {
			c.Trivial()
			return
		}
		a := tpdu.Address{TOA: m.TOA, Addr: m.Text}
		k.Input("address", a)
		b, err := a.MarshalBinary()
		k.Seen(want)
		if err != nil || !bytes.Equal(b, want) {
			k.Fail("marshal", "marshalled to %x, %v, want %x", b, err, want)
			return
		}
		if d := addrDiff("address", m, a); d != "" {
			k.Fail("modified", "MarshalBinary changed the address: %s", d)
		}
		v := usedAddr(r)
		src := append(append([]byte(nil), b...), r.Bytes(r.IntN(5))...)
		n, err := v.UnmarshalBinary(src)
		if err != nil || n != len(b) {
			k.Fail("unmarshal", "own output %x read %d octets, %v", b, n, err)
			return
		}
		if d := addrDiff("address", m, v); d != "" {
			k.Fail("identity", "%s, from %x", d, b)
		}
		for i := 0; i < len(b); i++ {
			var v tpdu.Address
			n, err := v.UnmarshalBinary(b[:i:i])
			if err == nil {
				k.Fail("truncated", "accepted %x truncated to %d octets as %v, read %d", b, i, v, n)
			}
		}
	})
	// each length, to and beyond what the length octet can express
	c.Run("lengths", 300, func(k *mon.Case) {
		r := k.R()
		for range 4 {
			m := ref.Addr{TOA: 0x80 | byte(r.IntN(128))}
			m.Text = genDigits(r, k.I)
			if k.I <= 150 && r.P(1, 2) {
				m.TOA = m.TOA&^0x70 | 0x50
				var t []rune
				for len(t) < k.I {
					if x := pick(r, lockRunes[0]); x != 0x1b {
						t = append(t, x)
					}
				}
				if k.I > 0 {
					t[k.I-1] = pick(r, []rune("@@ \r\nàZ0"))
				}
				m.Text = string(t)
			} else if m.Alnum() {
				m.TOA &^= 0x40
			}
			want, ok := m.Bytes()
			a := tpdu.Address{TOA: m.TOA, Addr: m.Text}
			k.Reset()
			k.Input("address", a)
			k.Seen("len", m.TOA, m.Text)
			b, err := a.MarshalBinary()
			if !ok {
				if err == nil {
					k.Fail("accepted-overlong", "marshalled to %x", b)
				}
				c.Count("overlong_refused", 1)
				continue
			}
			if err != nil || !bytes.Equal(b, want) {
				k.Fail("marshal", "marshalled to %x, %v, want %x", b, err, want)
				continue
			}
			v := usedAddr(r)
			if n, err := v.UnmarshalBinary(b); err != nil || n != len(b) {
				k.Fail("unmarshal", "own output %x read %d octets, %v", b, n, err)
			} else if d := addrDiff("address", m, v); d != "" {
				k.Fail("identity", "%s, from %x", d, b)
			}
		}
	})
	// what is not a digit
	c.Run("digits", 256, func(k *mon.Case) {
		r := k.R()
		ok := strings.IndexByte(addrDigits, byte(k.I)) >= 0
		for range 8 {
			d := genDigits(r, r.IntN(20))
			i := r.IntN(len(d) + 1)
			d = d[:i] + string([]byte{byte(k.I)}) + d[i:]
			a := tpdu.Address{TOA: pick(r, []byte{0x80, 0x81, 0x91, 0xa1, 0xb1, 0xc8, 0xe0, 0xf0}), Addr: d}
			k.Reset()
			k.Input("address", a)
			k.Seen("digit", d)
			if b, err := a.MarshalBinary(); (err == nil) != ok {
				k.Fail("not-digits", "marshalled to %x, %v", b, err)
			}
			s := pdumode.SMSCAddress{Address: a}
			if b, err := s.MarshalBinary(); (err == nil) != ok {
				k.Fail("not-digits", "SMSC marshalled to %x, %v", b, err)
			}
		}
	})
	c.Run("octets", c.N(60000), func(k *mon.Case) {
		r := k.R()
		b := r.Bytes(r.IntN(16))
		if len(b) > 0 {
			b[0] = byte(r.IntN(26))
			if r.P(1, 20) {
				b[0] = byte(r.Uint32())
			}
		}
		if len(b) > 1 && r.P(1, 3) {
			b[1] = 0xd0
		}
		if r.P(1, 2) {
			a := genAddr(r)
			if len(a.Text) > 30 {
				a.Text = "123"
			}
			if x, ok := a.Bytes(); ok {
				b = x
				if r.P(1, 2) {
					b[r.IntN(len(b))] ^= byte(1) << r.IntN(8)
				}
			}
		}
		k.Input("src", b)
		m, wn, rerr := ref.ParseAddr(b)
		v := usedAddr(r)
		n, err := v.UnmarshalBinary(b)
		if rerr == ref.ErrDontCare {
			c.Trivial()
			return
		}
		k.Seen("o", b)
		if rerr != nil {
			c.Count("rejections", 1)
			if err == nil {
				k.Fail("accepted-invalid", "accepted as %v", v)
			}
			return
		}
		if err != nil || n != wn {
			k.Fail("rejected-valid", "read %d octets, %v, want %d", n, err, wn)
			return
		}
		if d := addrDiff("address", m, v); d != "" {
			k.Fail("parse", "%s", d)
		}
	})
	c.Run("toa", 256, func(k *mon.Case) {
		toa := byte(k.I)
		a := tpdu.Address{TOA: toa, Addr: "123"}
		k.Input("toa", toa)
		k.Seen("toa", toa)
		if byte(a.TypeOfNumber()) != toa>>4&7 || byte(a.NumberingPlan()) != toa&0xf {
			k.Fail("toa-get", "TOA %02x has type %d plan %d", toa, a.TypeOfNumber(), a.NumberingPlan())
		}
		want := "123"
		if toa>>4&7 == 1 {
			want = "+123"
		}
		if a.Number() != want {
			k.Fail("number", "TOA %02x has number %q, want %q", toa, a.Number(), want)
		}
		for v := 0; v < 16; v++ {
			b := a
			b.SetNumberingPlan(tpdu.NumberingPlan(v))
			if b.TOA != toa&0xf0|byte(v) || b.Addr != "123" {
				k.Fail("toa-set", "TOA %02x with plan %d is %02x", toa, v, b.TOA)
			}
			b = a
			b.SetTypeOfNumber(tpdu.TypeOfNumber(v))
			if v < 8 && b.TOA != toa&0x8f|byte(v)<<4 || b.TOA&0x8f != toa&0x8f || b.Addr != "123" {
				k.Fail("toa-set", "TOA %02x with type %d is %02x", toa, v, b.TOA)
			}
			b = a
			b.SetNumberingPlan(tpdu.NumberingPlan(v*17 - 9))
			if b.TOA&0xf0 != toa&0xf0 || b.Addr != "123" {
				k.Fail("toa-set", "TOA %02x with plan %d is %02x", toa, v*17-9, b.TOA)
			}
		}
	})
	c.Run("names", 1, func(k *mon.Case) {
		for i, t := range []tpdu.TypeOfNumber{tpdu.TonUnknown, tpdu.TonInternational, tpdu.TonNational, tpdu.TonNetworkSpecific,
			tpdu.TonSubscriberNumber, tpdu.TonAlphanumeric, tpdu.TonAbbreviated, tpdu.TonExtension} {
			k.Seen("ton", i)
			if int(t) != i {
				k.Fail("name:ton", "type of number %d is %d", i, t)
			}
		}
		for p, w := range map[tpdu.NumberingPlan]int{tpdu.NpUnknown: 0, tpdu.NpISDN: 1, tpdu.NpData: 3, tpdu.NpTelex: 4, tpdu.NpScSpecificA: 5,
			tpdu.NpScSpecificB: 6, tpdu.NpNational: 8, tpdu.NpPrivate: 9, tpdu.NpErmes: 10, tpdu.NpExtension: 15} {
			k.Seen("np", w)
			if int(p) != w {
				k.Fail("name:np", "numbering plan %d is %d", w, p)
			}
		}
	})
	c.Exhaustive("all types of address octets with all types of number and numbering plans")
	c.Run("number", c.N(8000), func(k *mon.Case) {
		r := k.R()
		num := genNumber(r)
		if r.P(1, 10) {
			num = ""
		}
		arg := num
		if r.P(1, 2) {
			arg = "+" + num
		}
		k.Input("number", arg)
		k.Seen("number", arg)
		a := tpdu.NewAddress(tpdu.FromNumber(arg))
		if a.TOA != 0x91 || a.Addr != num || a.Number() != "+"+num {
			k.Fail("from-number", "number %q gives %02x %q, %q", arg, a.TOA, a.Addr, a.Number())
		}
		b := tpdu.Address{TOA: byte(r.Uint32())}
		b.SetNumber(a.Number())
		if b.Addr != num || b.Number() != "+"+num || b.TOA&0x7f != 0x11 {
			k.Fail("set-number", "set %q gives %02x %q", a.Number(), b.TOA, b.Addr)
		}
		// only the one sign is a prefix
		arg = strings.Repeat("+", r.IntN(4)) + pick(r, []string{"", "0", "00", "*", " "}) + num + pick(r, []string{"", "+", "+1"})
		b.SetNumber(arg)
		if b.Addr != strings.TrimPrefix(arg, "+") || b.TOA&0x7f != 0x11 {
			k.Fail("set-number", "set %q gives %02x %q", arg, b.TOA, b.Addr)
		}
		if e := tpdu.NewAddress(); e.TOA != 0x80 || e.Addr != "" {
			k.Fail("new-address", "empty address is %v", e)
		}
	})
}

// p16: PDU mode.
func p16(c *mon.Ctx) {
	c.Rule("PDU mode PDUs with SMSC addresses of 0 to 508 digits (none, odd, even) and TPDUs of 0 to 600 octets, in binary and hex of either case, truncated and corrupted. Non-trivial: distinct PDU octets.")
	history(c, histPDU()...)
	model := func(toa byte, digits string, t []byte) []byte {
		if digits == "" {
			return append([]byte{0}, t...)
		}
		s, ok := ref.SemiOctets(digits)
		if !ok {
			panic("harness: digits")
		}
		b := append([]byte{byte(len(s) + 1), toa}, s...)
		return append(b, t...)
	}
	c.Run("identity", c.N(30000), func(k *mon.Case) {
		r := k.R()
		digits := genDigits(r, r.IntN(24))
		if r.P(1, 30) {
			digits = genDigits(r, r.Range(400, 508))
		}
		if r.P(1, 12) {
			digits = ""
		}
		toa := byte(r.Uint32())
		t := r.Bytes(r.IntN(180))
		if r.P(1, 8) {
			t = r.Bytes(r.Range(180, 600))
		}
		if r.P(1, 8) {
			t = nil
		}
		want := model(toa, digits, t)
		g := newGuard(t)
		p := pdumode.PDU{SMSC: pduSMSC{Address: tpdu.Address{TOA: toa, Addr: digits}}, TPDU: g.b}
		k.Input("toa", toa, "digits", digits, "tpdu", t)
		b, err := p.MarshalBinary()
		k.Seen(want)
		if err != nil || !bytes.Equal(b, want) {
			k.Fail("marshal", "marshalled to %x, %v, want %x", b, err, want)
			return
		}
		h, err := p.MarshalHexString()
		if err != nil || h != hex.EncodeToString(want) {
			k.Fail("marshal-hex", "marshalled to %q, %v, want %x", h, err, want)
		}
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "%s", d)
		}
		check := func(how string, q *pdumode.PDU, err error) {
			wt := toa
			if digits == "" {
				wt = 0
			}
			if err != nil || q == nil {
				k.Fail("unmarshal:"+how, "own output %x: %v", want, err)
			} else if q.SMSC.Addr != digits || q.SMSC.TOA != wt || !bytes.Equal(q.TPDU, t) {
				k.Fail("identity:"+how, "own output %x gives %02x %q %x", want, q.SMSC.TOA, q.SMSC.Addr, q.TPDU)
			}
		}
		src := newGuard(b)
		q, err := pdumode.UnmarshalBinary(src.b)
		check("binary", q, err)
		if d := src.diff(); d != "" {
			k.Fail("input-modified", "%s", d)
		}
		q, err = pdumode.UnmarshalHexString(h)
		check("hex", q, err)
		q, err = pdumode.UnmarshalHexString(strings.ToUpper(h))
		check("HEX", q, err)
		var v pdumode.PDU
		err = v.UnmarshalBinary(b)
		check("method", &v, err)
		var w pdumode.PDU
		err = w.UnmarshalHexString(h)
		check("hexmethod", &w, err)
		// reusing a PDU, whose previous TPDU may be held
		old := r.Bytes(r.IntN(40))
		held := append([]byte(nil), old...)
		for _, u := range []*pdumode.PDU{&v, &w} {
			u.SMSC.TOA, u.SMSC.Addr, u.TPDU = byte(r.Uint32()), genDigits(r, r.IntN(12)), old
		}
		err = v.UnmarshalBinary(b)
		check("usedmethod", &v, err)
		err = w.UnmarshalHexString(h)
		check("usedhexmethod", &w, err)
		if !bytes.Equal(old, held) {
			k.Fail("held", "unmarshalling altered the previous TPDU")
		}
		// nor is the source held
		q, err = pdumode.UnmarshalBinary(b)
		err2 := v.UnmarshalBinary(b)
		for i := range b {
			b[i] ^= 0xff
		}
		check("source", q, err)
		check("sourcemethod", &v, err2)
		b = append(b[:0:0], want...)
		// truncation within the SMSC is rejected
		for i := 0; i < len(want)-len(t) && i < 30; i++ {
			if q, err := pdumode.UnmarshalBinary(b[:i:i]); err == nil || q != nil {
				k.Fail("truncated", "accepted %x", b[:i])
			} else {
				var de tpdu.DecodeError
				if !errors.As(err, &de) || !errors.Is(de.Err, tpdu.ErrUnderflow) || de.Offset < 0 || de.Offset > i {
					k.Fail("truncated-error", "%x gives error %v", b[:i], err)
				}
			}
		}
		// hex which is not octets
		bads := []string{h[:len(h)-1], h[1:], "0" + h, h + "0"}
		for range 4 {
			i := r.IntN(len(h))
			ch := byte(r.Uint32())
			for bytes.IndexByte([]byte("0123456789abcdefABCDEF"), ch) >= 0 {
				ch = byte(r.Uint32())
			}
			x := pick(r, []string{"g", "G", "O", "o", "l", "I", "/", ":", "@", "\x60", " ", "-", "é", "\n", "\t", "\x00", "０", string([]byte{ch})})
			bads = append(bads, h[:i]+x+h[i+1:], h[:i]+x+h[i:], x+h, h+x, x+h[1:], h[:len(h)-1]+x)
			x = pick(r, []string{"0x", "0X", "\r\n", "  ", "\n\n", "\x1a\n", "\"\"", "h ", "#", "\ufeff", "00 ", x + x, x + "0", "0" + x})
			bads = append(bads, x+h, h+x, h[:i]+x+h[i:], h[:i&^1]+x+h[i&^1:])
		}
		for _, bad := range bads {
			if _, err := hex.DecodeString(bad); err == nil {
				continue
			}
			if q, err := pdumode.UnmarshalHexString(bad); err == nil || q != nil {
				k.Fail("bad-hex", "accepted %q", bad)
			}
			if err := w.UnmarshalHexString(bad); err == nil {
				k.Fail("bad-hex", "method accepted %q", bad)
			}
		}
	})
	c.Run("octets", c.N(20000), func(k *mon.Case) {
		r := k.R()
		b := r.Bytes(r.Range(0, 30))
		if len(b) > 0 && r.P(3, 4) {
			b[0] = byte(r.IntN(16))
		}
		k.Input("src", b)
		k.Seen("o", b)
		short := len(b) == 0
		if !short && b[0] > 0 {
			short = len(b) < 1+int(b[0])
		}
		q, err := pdumode.UnmarshalBinary(b)
		if short != (err != nil) || short != (q == nil) {
			k.Fail("short", "SMSC is short: %v, but gave %v, %v", short, q, err)
			return
		}
		if err != nil {
			return
		}
		n := 1 + int(b[0])
		if !bytes.Equal(q.TPDU, b[n:]) {
			k.Fail("split", "TPDU is %x, want %x", q.TPDU, b[n:])
		}
		if b[0] == 0 {
			if q.SMSC.Addr != "" || q.SMSC.TOA != 0 {
				k.Fail("smsc", "no SMSC gave %v", q.SMSC)
			}
			return
		}
		// digits in order, ignoring fill
		var want []byte
		for _, o := range b[2:n] {
			for _, nib := range []byte{o & 0xf, o >> 4} {
				if nib != 0xf {
					want = append(want, addrDigits[nib])
				}
			}
		}
		if q.SMSC.Addr != string(want) || q.SMSC.TOA != b[1] {
			k.Fail("smsc", "SMSC is %02x %q, want %02x %q", q.SMSC.TOA, q.SMSC.Addr, b[1], want)
		}
	})
}

// p17: timestamps.
func p17(c *mon.Ctx) {
	c.Rule("every day of 1970 to 2069 with random times of day and zones, every zone of up to 79 quarter hours either side, and every value of every octet, with the instant calculated independently of the time package. Non-trivial: distinct timestamps and octets.")
	history(c, histTimestamp()...)
	one := func(k *mon.Case, s ref.Stamp, nanos int) {
		k.Reset()
		k.Input("stamp", s)
		ts := stampTime(s)
		ts.Time = ts.Add(time.Duration(nanos))
		b, err := ts.MarshalBinary()
		want := s.Bytes()
		k.Seen(want)
		if err != nil || !bytes.Equal(b, want) {
			k.Fail("marshal", "%v marshalled to %x, %v, want %x", ts, b, err, want)
			return
		}
		v := tpdu.Timestamp{Time: ts.AddDate(1, 2, 3).UTC()}
		if err := v.UnmarshalBinary(b); err != nil {
			k.Fail("unmarshal", "own output %x: %v", b, err)
			return
		}
		if d := stampDiff("timestamp", s, v); d != "" {
			k.Fail("identity", "%s", d)
		}
		if y, mo, d := v.Date(); y != s.Year() || int(mo) != s.Mo || d != s.D || v.Hour() != s.H || v.Minute() != s.Mi || v.Second() != s.S {
			k.Fail("local", "%x gives %v, want %+v", b, v, s)
		}
	}
	c.Run("days", 36525, func(k *mon.Case) {
		d := time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, k.I)
		r := k.R()
		s := ref.Stamp{Y: d.Year() % 100, Mo: int(d.Month()), D: d.Day(), H: r.IntN(24), Mi: r.IntN(60), S: r.IntN(60), Quarters: r.Range(-79, 79)}
		if !s.Valid() || s.Year() != d.Year() {
			panic("harness: stamp")
		}
		one(k, s, pick(r, []int{r.IntN(1e9), r.IntN(1e9), 1, 499999999, 500000000, 999999999, 999999500}))
	})
	c.Run("zones", 159, func(k *mon.Case) {
		for i := 0; i < 24; i++ {
			s := genStamp(k.R())
			s.Quarters = k.I - 79
			s.H = i
			one(k, s, 0)
		}
	})
	c.Run("times", 1440, func(k *mon.Case) {
		for i := 0; i < 60; i++ {
			s := genStamp(k.R())
			s.H, s.Mi, s.S = k.I/60, k.I%60, i
			one(k, s, 0)
		}
	})
	// zones which are not a multiple of a quarter hour
	c.Run("irregular zones", c.N(4000), func(k *mon.Case) {
		r := k.R()
		off := r.Range(-79*900-899, 79*900+899)
		if r.P(1, 4) {
			off = r.Range(-1000, 1000)
		}
		s := genStamp(r)
		s.Y = r.Range(71, 99)
		s.Quarters = 0
		if r.P(1, 3) { // about the new year, local
			s.Mo, s.D, s.H, s.Mi, s.S = 1, 1, 0, 0, 0
		}
		unix := s.Unix()
		if s.H+s.Mi+s.S == 0 && s.D*s.Mo == 1 {
			unix += int64(r.Range(-2000, 2000) - off)
		}
		t := time.Unix(unix, 0).In(time.FixedZone("LMT", off))
		k.Input("time", t, "offset", off)
		ts := tpdu.Timestamp{Time: t}
		b, err := ts.MarshalBinary()
		k.Seen("irregular", t.Unix(), off)
		if err != nil {
			k.Fail("irregular", "%v: %v", t, err)
			return
		}
		var v tpdu.Timestamp
		if err := v.UnmarshalBinary(b); err != nil || v.Unix() != unix {
			k.Fail("irregular", "%v marshals to %x, which is %v, %v", t, b, v, err)
			return
		}
		if _, z := v.Zone(); z-off >= 900 || off-z >= 900 {
			k.Fail("irregular", "%v in a zone of %d seconds marshals to %x, in a zone of %d", t, off, b, z)
		}
	})
	// zones with a change of offset nearby
	c.Run("zone changes", c.N(4000), func(k *mon.Case) {
		r := k.R()
		s := genStamp(r)
		s.Y, s.Quarters = r.Range(71, 99), 0
		change := s.Unix()
		offs := [2]int{}
		for i := range offs {
			switch offs[i] = r.Range(-60, 60) * 900; r.IntN(3) {
			case 0:
				offs[i] += r.Range(-899, 899)
			case 1:
				offs[i] = offs[0] + pick(r, []int{3600, -3600, 1800, 60, 870})
			}
		}
		loc, err := time.LoadLocationFromTZData("Changing", tzData(change, offs))
		if err != nil {
			panic(err)
		}
		unix := change + int64(r.Range(-4000, 4000))
		if r.P(1, 4) {
			unix = change + int64(r.Range(-2, 2))
		}
		t := time.Unix(unix, 0).In(loc)
		_, off := t.Zone()
		if off != offs[b2i(unix >= change)] {
			panic("zone")
		}
		k.Input("time", t, "offsets", offs, "change", change)
		k.Seen("change", unix, change, offs)
		ts := tpdu.Timestamp{Time: t}
		b, err := ts.MarshalBinary()
		var v tpdu.Timestamp
		if err == nil {
			err = v.UnmarshalBinary(b)
		}
		if err != nil || v.Unix() != unix {
			k.Fail("zone-change", "%v marshals to %x, which is %v, %v", t, b, v, err)
			return
		}
		if _, z := v.Zone(); z-off >= 900 || off-z >= 900 || (off%900 == 0 && z != off) {
			k.Fail("zone-change", "%v in a zone of %d seconds marshals to %x, in a zone of %d", t, off, b, z)
		}
		if !ts.Time.Equal(t) || ts.Location() != loc {
			k.Fail("zone-change", "marshalling altered the timestamp from %v to %v", t, ts)
		}
	})
	c.Exhaustive("every day from 1970 to 2069, every second of the day, every zone")
	// every value of every octet
	c.Run("octets", 7*256, func(k *mon.Case) {
		r := k.R()
		for n := 0; n < 4; n++ {
			k.Reset()
			b := genStamp(r).Bytes()
			b[k.I/256] = byte(k.I)
			for i := n * r.IntN(2); i > 0; i-- { // and others
				x := byte(r.IntN(256))
				if r.P(3, 4) {
					x = byte(r.IntN(10)<<4 | r.IntN(10))
				}
				b[r.IntN(7)] = x
			}
			k.Input("src", b)
			k.Seen("o", b)
			s, rerr := ref.ParseStamp(b)
			var v tpdu.Timestamp
			err := v.UnmarshalBinary(append(b, r.Bytes(r.IntN(3))...))
			if (rerr != nil) != (err != nil) {
				k.Fail("octet", "octets %x gave %v, %v, want %v", b, v, err, rerr)
			} else if err == nil {
				if d := stampDiff("timestamp", s, v); d != "" {
					k.Fail("octet", "octets %x: %s", b, d)
				}
			}
			for i := 0; i < 7; i++ {
				var v tpdu.Timestamp
				if err := v.UnmarshalBinary(b[:i:i]); err == nil {
					k.Fail("short", "accepted %d octets as %v", i, v)
				}
			}
		}
	})
}

// p18: validity periods.
func p18(c *mon.Ctx) {
	c.Rule("all 256 relative values, durations around every representable period, random durations, all enhanced formats, extension bits and fill octets, absolute times, against an independent interpretation of 23.040 9.2.3.12. Non-trivial: distinct periods and octets.")
	history(c, histPeriod()...)
	rt := func(k *mon.Case, v ref.VP) {
		g := toVP(v)
		want, ok := v.Bytes()
		b, err := g.MarshalBinary()
		k.Seen(v.Format, v.EFI, v.Dur.String(), want)
		if !ok {
			if err == nil {
				k.Fail("accepted-invalid", "%+v marshalled to %x", v, b)
			}
			return
		}
		if err != nil || !bytes.Equal(b, want) {
			k.Fail("marshal", "%+v marshalled to %x, %v, want %x", v, b, err, want)
			return
		}
		var u tpdu.ValidityPeriod
		n, err := u.UnmarshalBinary(append(append([]byte(nil), b...), 0x55, 0xaa), tpdu.ValidityPeriodFormat(v.Format))
		if err != nil || n != len(want) {
			k.Fail("unmarshal", "own output %x read %d octets, %v", b, n, err)
			return
		}
		w, _, rerr := ref.ParseVP(want, v.Format)
		if rerr != nil {
			panic("harness: vp")
		}
		if d := vpDiff(w, u); d != "" {
			k.Fail("identity", "%+v gives %x: %s", v, b, d)
		}
		// in a TPDU
		t, err := tpdu.NewSubmit(tpdu.WithDA(tpdu.NewAddress(tpdu.FromNumber("+123"))))
		if err != nil {
			k.Fail("new", "%v", err)
			return
		}
		t.FirstOctet |= tpdu.FirstOctet(k.R().IntN(256)) &^ 0x43
		fo := t.FirstOctet
		t.SetVP(g)
		if byte(t.FirstOctet) != byte(fo)&^0x18|byte(v.Format)<<3 || int(t.FirstOctet.VPF()) != v.Format {
			k.Fail("vpf", "first octet is %02x after setting a period of format %d on %02x", byte(t.FirstOctet), v.Format, byte(fo))
		}
		tb, err := t.MarshalBinary()
		if err != nil {
			k.Fail("tpdu", "%v", err)
			return
		}
		x, err := unmarshal(tb, true)
		if err != nil {
			k.Fail("tpdu", "TPDU with period %x: %v", b, err)
			return
		}
		if d := vpDiff(w, x.VP); d != "" {
			k.Fail("tpdu", "%s", d)
		}
	}
	c.Run("relative", 256, func(k *mon.Case) {
		d := ref.RelToDur(byte(k.I))
		for _, e := range []time.Duration{0, 1, -1, time.Second, -time.Second, time.Minute, -time.Minute, 5 * time.Minute, 29 * time.Minute, 12 * time.Hour, 24 * time.Hour, 6 * 24 * time.Hour} {
			k.Reset()
			k.Input("duration", d+e)
			rt(k, ref.VP{Format: ref.VPRelative, Dur: d + e})
			rt(k, ref.VP{Format: ref.VPEnhanced, EFI: 1, Dur: d + e})
			// never longer than requested, unless shorter than the shortest
			var v tpdu.ValidityPeriod
			v.SetRelative(d + e)
			b, err := v.MarshalBinary()
			if err != nil || len(b) != 1 {
				k.Fail("relative", "%v gives %x, %v", d+e, b, err)
				continue
			}
			var u tpdu.ValidityPeriod
			if _, err := u.UnmarshalBinary(b, tpdu.VpfRelative); err != nil || u.Duration > d+e && u.Duration != 5*time.Minute {
				k.Fail("relative-longer", "%v requested but encodes %v, %v", d+e, u.Duration, err)
			}
		}
		var u tpdu.ValidityPeriod
		n, err := u.UnmarshalBinary([]byte{byte(k.I)}, tpdu.VpfRelative)
		if err != nil || n != 1 || u.Duration != d || u.Format != tpdu.VpfRelative {
			k.Fail("relative-decode", "octet %02x gives %v, read %d, %v, want %v", k.I, u, n, err, d)
		}
	})
	c.Exhaustive("all relative validity period octets")
	c.Run("durations", c.N(20000), func(k *mon.Case) {
		r := k.R()
		v := genVP(r)
		switch v.Format {
		case ref.VPRelative:
			v.Dur = time.Duration(r.Int64N(int64(70 * 7 * 24 * time.Hour)))
			if r.P(1, 2) {
				v.Dur = time.Duration(r.Int64N(int64(26 * time.Hour)))
			}
		case ref.VPEnhanced:
			v.EFI = byte(r.Uint32())
			switch v.EFI & 7 {
			case 1:
				v.Dur = time.Duration(r.Int64N(int64(70 * 7 * 24 * time.Hour)))
			case 2:
				v.Dur = time.Duration(r.Int64N(int64(300 * time.Second)))
			case 3:
				v.Dur = time.Duration(r.Int64N(int64(100 * time.Hour)))
			}
		}
		switch r.IntN(8) {
		case 0: // to either extreme
			v.Dur = time.Duration(r.Int64N(1 << 62))
			if r.P(1, 2) {
				v.Dur = -v.Dur
			}
		case 1:
			v.Dur = time.Duration(r.Range(99, 300))*time.Hour + time.Duration(r.Range(-3700, 3700))*time.Second
		case 2:
			v.Dur = -time.Duration(r.Int64N(int64(200 * time.Hour)))
		}
		k.Input("vp", v)
		rt(k, v)
	})
	c.Run("hhmmss", 100, func(k *mon.Case) {
		for m := 0; m < 60; m++ {
			s := k.R().IntN(60)
			k.Reset()
			v := ref.VP{Format: ref.VPEnhanced, EFI: 3, Dur: time.Duration(k.I)*time.Hour + time.Duration(m)*time.Minute + time.Duration(s)*time.Second}
			k.Input("vp", v)
			rt(k, v)
		}
	})
	c.Run("seconds", 256, func(k *mon.Case) {
		v := ref.VP{Format: ref.VPEnhanced, EFI: 2, Dur: time.Duration(k.I) * time.Second}
		k.Input("vp", v)
		rt(k, v)
	})
	// about every change of unit, and every limit
	var marks []time.Duration
	for i := range 256 {
		marks = append(marks, ref.RelToDur(byte(i)))
	}
	for i := range 260 {
		marks = append(marks, time.Duration(i)*time.Second, time.Duration(i)*time.Minute, time.Duration(i)*time.Hour)
	}
	marks = append(marks, -1, 1, time.Millisecond, 64*7*24*time.Hour, 1<<31-1, 1<<31, 1<<32, 1<<62, 1<<63-1, -1<<63, 36000*time.Second, 65535*time.Second, 65536*time.Second)
	c.Run("marks", len(marks), func(k *mon.Case) {
		for _, e := range []time.Duration{0, 1, -1, time.Second, -time.Second, time.Second - 1, 1 - time.Second, time.Minute - 1} {
			d := marks[k.I] + e
			if (d < marks[k.I]) != (e < 0) {
				continue // overflow
			}
			k.Reset()
			k.Input("duration", d)
			efi := byte(k.R().Uint32()) &^ 7
			rt(k, ref.VP{Format: ref.VPRelative, Dur: d})
			for f := range byte(4) {
				if f == 0 && d != 0 {
					continue
				}
				rt(k, ref.VP{Format: ref.VPEnhanced, EFI: efi | f, Dur: d})
			}
		}
	})
	c.Run("octets", c.N(60000), func(k *mon.Case) {
		r := k.R()
		b := make([]byte, r.Range(0, 9))
		for i := range b {
			if r.P(1, 3) {
				b[i] = byte(r.Uint32())
			}
		}
		if len(b) > 0 && r.P(1, 2) {
			b[0] = b[0]&^7 | byte(r.IntN(4))
		}
		if r.P(1, 3) && len(b) >= 7 {
			for i := 4; i < 7; i++ {
				b[i] = 0
			}
			for i := 1; i < 4; i++ {
				b[i] = byte(r.IntN(10))<<4 | byte(r.IntN(10))
			}
		}
		f := r.IntN(4)
		k.Input("src", b, "format", f)
		k.Seen("o", f, b)
		w, wn, rerr := ref.ParseVP(b, f)
		var v tpdu.ValidityPeriod
		if r.P(1, 2) { // one used before
			v = rawVP(genVP(r))
		}
		n, err := v.UnmarshalBinary(b, tpdu.ValidityPeriodFormat(f))
		if (err != nil) != (rerr != nil) {
			k.Fail("octets", "gave %v, %v, want %v", v, err, rerr)
			return
		}
		if err != nil {
			c.Count("rejections", 1)
			if v.Format != tpdu.VpfNotPresent {
				k.Fail("rejected-present", "rejected with %v but the period claims to be present: %v", err, v)
			}
			return
		}
		if n != wn {
			k.Fail("count", "read %d octets, want %d", n, wn)
		}
		if d := vpDiff(w, v); d != "" {
			k.Fail("parse", "%s", d)
		}
	})
	c.Run("setters", c.N(4000), func(k *mon.Case) {
		r := k.R()
		// setting a period leaves nothing of the previous
		var v tpdu.ValidityPeriod
		var last ref.VP
		for i := 0; i < 4; i++ {
			last = genVP(r)
			for last.Format == 0 {
				last = genVP(r)
			}
			switch last.Format {
			case ref.VPAbsolute:
				v.SetAbsolute(stampTime(last.Stamp))
			case ref.VPRelative:
				v.SetRelative(last.Dur)
			case ref.VPEnhanced:
				v.SetEnhanced(last.Dur, last.EFI)
			}
		}
		k.Input("last", last)
		k.Seen("set", fmt.Sprintf("%+v", last))
		fresh := toVP(last)
		if fmt.Sprintf("%#v", fresh) != fmt.Sprintf("%#v", v) && (v.Format != fresh.Format || v.Duration != fresh.Duration || v.EFI != fresh.EFI || !v.Time.Equal(fresh.Time.Time)) {
			k.Fail("setter", "period is %+v, want %+v", v, fresh)
		}
		if e := tpdu.EnhancedFormat(last.EFI); byte(e) != last.EFI&7 {
			k.Fail("enhanced-format", "EFI %02x has format %d", last.EFI, e)
		}
	})
}

func anyAddr(r *mon.Rng) tpdu.Address {
	a := genAddr(r)
	return tpdu.Address{TOA: a.TOA, Addr: a.Text}
}

// p19: data coding scheme and flag bits.
func p19(c *mon.Ctx) {
	c.Rule("exhaustive over all 256 octets of the data coding scheme, first octet and parameter indicator, with every alphabet, class, message type, format and setter. Non-trivial: distinct (octet, operation, argument).")
	c.Run("dcs", 256, func(k *mon.Case) {
		d := tpdu.DCS(k.I)
		k.Input("dcs", byte(d))
		alpha, class, comp, ok := ref.DCS(byte(d))
		a, err := d.Alphabet()
		k.Seen("dcs", k.I)
		if ok != (err == nil) || int(a) != alpha {
			k.Fail("alphabet", "alphabet is %d, %v, want %d", a, err, alpha)
		}
		t := tpdu.TPDU{DCS: d}
		if ta, terr := t.Alphabet(); ta != a || (terr == nil) != (err == nil) {
			k.Fail("alphabet", "TPDU alphabet is %d, %v, want %d", ta, terr, alpha)
		}
		cl, err := d.Class()
		if class >= 0 {
			if err != nil || int(cl) != class {
				k.Fail("class", "class is %d, %v, want %d", cl, err, class)
			}
		} else if cl != tpdu.MClassUnknown {
			k.Fail("class", "class is %d, want unknown", cl)
		}
		if !ok && err == nil {
			k.Fail("class", "reserved group has a class")
		}
		if d.Compressed() != comp {
			k.Fail("compressed", "compressed is %v", d.Compressed())
		}
		for want := 0; want < 3; want++ {
			n, err := d.WithAlphabet(tpdu.Alphabet(want))
			k.Seen("with-alphabet", k.I, want)
			g := byte(d) >> 4
			can := g < 8 || (g == 0xc || g == 0xd) && want == ref.A7 || g == 0xe && want == ref.AUCS2 || g == 0xf && want != ref.AUCS2
			if can != (err == nil) {
				k.Fail("with-alphabet", "%02x with alphabet %d is %02x, %v", byte(d), want, byte(n), err)
				continue
			}
			if err != nil {
				if n != d {
					k.Fail("with-alphabet", "%02x with alphabet %d is %02x with error %v", byte(d), want, byte(n), err)
				}
				continue
			}
			na, nc, nz, nok := ref.DCS(byte(n))
			if !nok || na != want || nc != class || nz != comp || byte(n)>>4 != g || byte(n)&3 != byte(d)&3 {
				k.Fail("with-alphabet", "%02x with alphabet %d is %02x: alphabet %d class %d compressed %v", byte(d), want, byte(n), na, nc, nz)
			}
		}
		for _, want := range []int{-256, -64, -4, -1, 4, 5, 6, 7, 8, 16, 63, 64, 128, 255, 256, 257, 1 << 20} {
			k.Seen("with-beyond", k.I, want)
			if n, err := d.WithAlphabet(tpdu.Alphabet(want)); err == nil || n != d {
				k.Fail("with-alphabet", "%02x with alphabet %d is %02x, %v", byte(d), want, byte(n), err)
			}
			if n, err := d.WithClass(tpdu.MessageClass(want)); err == nil || n != d {
				k.Fail("with-class", "%02x with class %d is %02x, %v", byte(d), want, byte(n), err)
			}
		}
		if n, err := d.WithAlphabet(tpdu.AlphaReserved); err != nil && n != d || (byte(n)^byte(d))&^0x0c != 0 {
			k.Fail("with-alphabet", "%02x with the reserved alphabet is %02x, %v", byte(d), byte(n), err)
		}
		for want := 0; want < 4; want++ {
			n, err := d.WithClass(tpdu.MessageClass(want))
			k.Seen("with-class", k.I, want)
			g := byte(d) >> 4
			can := g < 8 || g == 0xf
			if can != (err == nil) {
				k.Fail("with-class", "%02x with class %d is %02x, %v", byte(d), want, byte(n), err)
				continue
			}
			if err != nil {
				if n != d {
					k.Fail("with-class", "%02x with class %d is %02x with error %v", byte(d), want, byte(n), err)
				}
				continue
			}
			na, nc, nz, nok := ref.DCS(byte(n))
			if !nok || nc != want || na != alpha || nz != comp || byte(n)&^0x13 != byte(d)&^0x13 {
				k.Fail("with-class", "%02x with class %d is %02x: alphabet %d class %d compressed %v", byte(d), want, byte(n), na, nc, nz)
			}
		}
		if !strings.HasPrefix(d.String(), fmt.Sprintf("0x%02x", byte(d))) {
			k.Fail("string", "string is %q", d.String())
		}
		if ok != (len(d.String()) > 4) || ok && !strings.HasSuffix(d.String(), []string{" 7bit", " 8bit", " UCS-2"}[alpha]) {
			k.Fail("string", "string is %q, for alphabet %d", d.String(), alpha)
		}
	})
	c.Run("first-octet", 256, func(k *mon.Case) {
		f := tpdu.FirstOctet(k.I)
		v := byte(k.I)
		k.Input("first octet", v)
		k.Seen("fo", v)
		flag := func(name string, got bool, mask byte) {
			if got != (v&mask != 0) {
				k.Fail("first-octet", "%s of %02x is %v", name, v, got)
			}
		}
		flag("MMS", f.MMS(), 4)
		flag("RD", f.RD(), 4)
		flag("LP", f.LP(), 8)
		flag("SRI", f.SRI(), 0x20)
		flag("SRR", f.SRR(), 0x20)
		flag("SRQ", f.SRQ(), 0x20)
		flag("UDHI", f.UDHI(), 0x40)
		flag("RP", f.RP(), 0x80)
		if byte(f.MTI()) != v&3 || byte(f.VPF()) != v>>3&3 {
			k.Fail("first-octet", "MTI of %02x is %d and VPF %d", v, f.MTI(), f.VPF())
		}
		for x := byte(0); x < 4; x++ {
			k.Seen("fo-with", v, x)
			if n := byte(f.WithMTI(tpdu.MessageType(x))); n != v&^3|x {
				k.Fail("with-mti", "%02x with MTI %d is %02x", v, x, n)
			}
			if n := byte(f.WithVPF(tpdu.ValidityPeriodFormat(x))); n != v&^0x18|x<<3 {
				k.Fail("with-vpf", "%02x with VPF %d is %02x", v, x, n)
			}
			t := tpdu.TPDU{FirstOctet: f}
			if err := tpdu.MessageType(x).ApplyTPDUOption(&t); err != nil || byte(t.FirstOctet) != v&^3|x {
				k.Fail("mti-option", "%02x with MTI %d is %02x, %v", v, x, byte(t.FirstOctet), err)
			}
		}
		// values beyond the field leave the other bits alone
		for _, x := range []int{-128, -4, -1, 4, 5, 7, 8, 12, 16, 32, 33, 64, 128, 131, 255, 256, 258, 1 << 20} {
			k.Seen("fo-beyond", v, x)
			if n := byte(f.WithMTI(tpdu.MessageType(x))); n&^3 != v&^3 {
				k.Fail("with-mti", "%02x with MTI %d is %02x", v, x, n)
			}
			if n := byte(f.WithVPF(tpdu.ValidityPeriodFormat(x))); n&^0x18 != v&^0x18 {
				k.Fail("with-vpf", "%02x with VPF %d is %02x", v, byte(x), n)
			}
			t := tpdu.TPDU{FirstOctet: f}
			tpdu.MessageType(x).ApplyTPDUOption(&t)
			if byte(t.FirstOctet)&^3 != v&^3 || t.Direction != 0 {
				k.Fail("mti-option", "%02x with MTI %d is %02x", v, x, byte(t.FirstOctet))
			}
			t = tpdu.TPDU{FirstOctet: f}
			t.SetVP(tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(x)})
			if byte(t.FirstOctet)&^0x18 != v&^0x18 {
				k.Fail("set-vp", "%02x with VP format %d is %02x", v, byte(x), byte(t.FirstOctet))
			}
		}
		// message types
		for st := -2; st < 9; st++ {
			for dir := 0; dir < 2; dir++ {
				k.Seen("type", v, st, dir)
				t := tpdu.TPDU{FirstOctet: f, Direction: tpdu.Direction(dir)}
				if int(t.SmsType()) != int(v&3)<<1|dir || byte(t.MTI()) != v&3 || t.UDHI() != (v&0x40 != 0) {
					k.Fail("sms-type", "first octet %02x direction %d has type %v", v, dir, t.SmsType())
				}
				err := t.SetSmsType(tpdu.SmsType(st))
				if st < 0 || st > 5 {
					if err == nil || byte(t.FirstOctet) != v || int(t.Direction) != dir {
						k.Fail("set-sms-type", "set type %d on %02x gives %02x, %v", st, v, byte(t.FirstOctet), err)
					}
					continue
				}
				if err != nil || int(t.SmsType()) != st || byte(t.FirstOctet) != v&^3|byte(st>>1) || int(t.Direction) != st&1 {
					k.Fail("set-sms-type", "set type %d on %02x gives %02x direction %d, %v", st, v, byte(t.FirstOctet), t.Direction, err)
				}
				if x := tpdu.SmsType(st); int(x.MTI()) != st>>1 || int(x.Direction()) != st&1 || x.String() != ref.TypeName[st] {
					k.Fail("sms-type", "type %d has MTI %d, direction %d, name %s", st, x.MTI(), x.Direction(), x)
				}
			}
		}
	})
	c.Run("pi", 256, func(k *mon.Case) {
		p := tpdu.PI(k.I)
		v := byte(k.I)
		k.Input("pi", v)
		k.Seen("pi", v)
		if p.PID() != (v&1 != 0) || p.DCS() != (v&2 != 0) || p.UDL() != (v&4 != 0) {
			k.Fail("pi", "PI %02x is PID %v DCS %v UDL %v", v, p.PID(), p.DCS(), p.UDL())
		}
		for i, name := range []string{"PID", "DCS", "UDL"} {
			if strings.Contains(p.String(), name) != (v&(1<<i) != 0) {
				k.Fail("pi-string", "PI %02x is %q", v, p.String())
			}
		}
		for fo := 0; fo < 256; fo += 0x11 {
			base := tpdu.TPDU{PI: p, FirstOctet: tpdu.FirstOctet(fo)}
			chk := func(what string, t tpdu.TPDU, pi, first byte) {
				k.Seen("set", what, v, fo)
				if byte(t.PI) != pi || byte(t.FirstOctet) != first {
					k.Fail("setter:"+what, "%s on PI %02x first octet %02x gives %02x and %02x, want %02x and %02x", what, v, fo, byte(t.PI), byte(t.FirstOctet), pi, first)
				}
			}
			f := byte(fo)
			var t tpdu.TPDU
			for _, x := range []byte{0x21, 0, 0x18, 0xff, v, f, byte(k.R().Uint32())} {
				for _, was := range []byte{0, x, 0x55} {
					base := base
					base.PID, base.DCS = was, tpdu.DCS(was)
					t = base
					t.SetPID(x)
					chk("SetPID", t, v|1, f)
					if t.PID != x || byte(t.DCS) != was {
						k.Fail("setter:SetPID", "PID is %02x and DCS %02x after setting PID %02x", t.PID, byte(t.DCS), x)
					}
					t = base
					t.SetDCS(x)
					chk("SetDCS", t, v|2, f)
					if byte(t.DCS) != x || t.PID != was {
						k.Fail("setter:SetDCS", "DCS is %02x and PID %02x after setting DCS %02x", byte(t.DCS), t.PID, x)
					}
					t = base
					if err := tpdu.DCS(x).ApplyTPDUOption(&t); err != nil || byte(t.DCS) != x || t.PID != was {
						k.Fail("setter:DCS", "DCS is %02x and PID %02x after applying DCS %02x, %v", byte(t.DCS), t.PID, x, err)
					}
					chk("DCS", t, v|2, f)
				}
			}
			t = base
			t.SetUD([]byte{})
			chk("SetUD(empty)", t, v|4, f)
			t = base
			t.SetUD([]byte{1, 2})
			chk("SetUD", t, v|4, f)
			if !bytes.Equal(t.UD, []byte{1, 2}) {
				k.Fail("setter:SetUD", "UD is %x", []byte(t.UD))
			}
			t.SetUD(nil)
			chk("SetUD(nil)", t, v&^4, f)
			if t.UD != nil {
				k.Fail("setter:SetUD", "UD is %x", []byte(t.UD))
			}
			t = base
			h := tpdu.UserDataHeader{{ID: 5, Data: []byte{1}}}
			t.SetUDH(h)
			chk("SetUDH", t, v|4, f|0x40)
			if len(t.UDH) != 1 {
				k.Fail("setter:SetUDH", "UDH is %v", t.UDH)
			}
			n := t
			n.SetUDH(nil)
			chk("SetUDH(nil)", n, v|4, f&^0x40)
			n = t
			n.SetUDH(tpdu.UserDataHeader{})
			chk("SetUDH(empty)", n, v|4, f&^0x40)
			if len(n.UDH) != 0 || n.UDHI() {
				k.Fail("setter:SetUDH", "UDH is %v", n.UDH)
			}
		}
	})
	// a change to any TPDU alters nothing else of it
	c.Run("changes", c.N(60000), func(k *mon.Case) {
		r := k.R()
		t := toTPDU(genTPDU(r, r.IntN(6)))
		t.FirstOctet, t.PI, t.DCS = tpdu.FirstOctet(r.Uint32()), tpdu.PI(r.Uint32()), tpdu.DCS(r.Uint32())
		t.PID, t.MR, t.CT, t.MN, t.ST, t.FCS = byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32())
		t.OA, t.DA, t.RA = anyAddr(r), anyAddr(r), anyAddr(r)
		t.VP = rawVP(genVP(r))
		t.UDH = toUDH(genUDH(r, r.IntN(3), 60, true))
		was := cloneTPDU(t)
		want := cloneTPDU(t)
		what := ""
		apply := func(o tpdu.Option) error { return o.ApplyTPDUOption(t) }
		var err error
		x := byte(r.Uint32())
		switch r.IntN(13) {
		case 0:
			what = fmt.Sprintf("SetPID(%02x)", x)
			t.SetPID(x)
			want.PID, want.PI = x, want.PI|1
		case 1:
			what = fmt.Sprintf("SetDCS(%02x)", x)
			t.SetDCS(x)
			want.DCS, want.PI = tpdu.DCS(x), want.PI|2
		case 2:
			what = fmt.Sprintf("DCS(%02x)", x)
			err = apply(tpdu.DCS(x))
			want.DCS, want.PI = tpdu.DCS(x), want.PI|2
		case 3:
			ud := r.Bytes(r.IntN(160))
			what = fmt.Sprintf("SetUD(%x)", ud)
			t.SetUD(append([]byte{}, ud...))
			want.UD, want.PI = ud, want.PI|4
		case 4:
			what = "SetUD(nil)"
			t.SetUD(nil)
			want.UD, want.PI = nil, want.PI&^4
		case 5, 6:
			h := toUDH(genUDH(r, r.IntN(4), 100, true))
			what = fmt.Sprintf("SetUDH(%v)", h)
			if r.P(1, 2) {
				t.SetUDH(h)
			} else {
				err = apply(tpdu.WithUDH(h))
				what = "option " + what
			}
			want.UDH = toUDH(modelUDH(h))
			want.FirstOctet &^= 0x40
			if len(h) > 0 {
				want.FirstOctet |= 0x40
				want.PI |= 4
			}
		case 7:
			v := rawVP(genVP(r))
			what = fmt.Sprintf("SetVP(%+v)", v)
			t.SetVP(v)
			want.VP, want.FirstOctet = v, want.FirstOctet&^0x18|tpdu.FirstOctet(v.Format)<<3
		case 8:
			st := r.IntN(6)
			what = fmt.Sprintf("type %d", st)
			if r.P(1, 2) {
				err = t.SetSmsType(tpdu.SmsType(st))
			} else {
				err = apply(tpdu.SmsType(st))
			}
			setKind(want, st)
		case 9:
			n := r.IntN(4)
			what = fmt.Sprintf("MTI %d", n)
			err = apply(tpdu.MessageType(n))
			want.FirstOctet = want.FirstOctet&^3 | tpdu.FirstOctet(n)
		case 10:
			n := tpdu.Direction(r.IntN(2))
			what = fmt.Sprintf("direction %d", n)
			err = apply(n)
			want.Direction = n
		case 11:
			a := anyAddr(r)
			what = fmt.Sprintf("DA %v", a)
			err = apply(tpdu.WithDA(a))
			want.DA = a
		case 12:
			a := anyAddr(r)
			what = fmt.Sprintf("OA %v", a)
			err = apply(tpdu.WithOA(a))
			want.OA = a
		}
		k.Input("tpdu", *was, "change", what)
		k.Seen("change", what, was.FirstOctet, was.PI, was.MR)
		if err != nil {
			k.Fail("change", "%s failed with %v", what, err)
		}
		if d := same(want, t); d != "" {
			k.Fail("change", "after %s of %+v: %s", what, *was, d)
		}
	})
	c.Exhaustive("all data coding scheme octets by alphabet and class; all first octets by message type, format and direction; all parameter indicators by setter")
	// the values which are named
	c.Run("names", 1, func(k *mon.Case) {
		for _, n := range []struct {
			name string
			got  int
			want int
		}{
			{"FoMTIMask", tpdu.FoMTIMask, 3}, {"FoMTIShift", tpdu.FoMTIShift, 0},
			{"FoMMS", tpdu.FoMMS, 4}, {"FoRD", tpdu.FoRD, 4}, {"FoLP", tpdu.FoLP, 8},
			{"FoVPFMask", tpdu.FoVPFMask, 0x18}, {"FoVPFShift", tpdu.FoVPFShift, 3},
			{"FoSRI", tpdu.FoSRI, 0x20}, {"FoSRR", tpdu.FoSRR, 0x20}, {"FoSRQ", tpdu.FoSRQ, 0x20},
			{"FoUDHI", tpdu.FoUDHI, 0x40}, {"FoRP", tpdu.FoRP, 0x80},
			{"PiPID", tpdu.PiPID, 1}, {"PiDCS", tpdu.PiDCS, 2}, {"PiUDL", tpdu.PiUDL, 4},
			{"Alpha7Bit", int(tpdu.Alpha7Bit), 0}, {"Alpha8Bit", int(tpdu.Alpha8Bit), 1},
			{"AlphaUCS2", int(tpdu.AlphaUCS2), 2}, {"AlphaReserved", int(tpdu.AlphaReserved), 3},
			{"Dcs8BitData", int(tpdu.Dcs8BitData), 4}, {"DcsUCS2Data", int(tpdu.DcsUCS2Data), 8},
			{"MT", int(tpdu.MT), 0}, {"MO", int(tpdu.MO), 1},
			{"EvpfNotPresent", int(tpdu.EvpfNotPresent), 0}, {"EvpfRelative", int(tpdu.EvpfRelative), 1},
			{"EvpfRelativeSeconds", int(tpdu.EvpfRelativeSeconds), 2}, {"EvpfRelativeHHMMSS", int(tpdu.EvpfRelativeHHMMSS), 3},
			{"MClass0", int(tpdu.MClass0), 0}, {"MClass1", int(tpdu.MClass1), 1}, {"MClass2", int(tpdu.MClass2), 2}, {"MClass3", int(tpdu.MClass3), 3},
			{"MtDeliver", int(tpdu.MtDeliver), 0}, {"MtSubmit", int(tpdu.MtSubmit), 1}, {"MtCommand", int(tpdu.MtCommand), 2}, {"MtReserved", int(tpdu.MtReserved), 3},
			{"SmsDeliver", int(tpdu.SmsDeliver), ref.Deliver}, {"SmsDeliverReport", int(tpdu.SmsDeliverReport), ref.DeliverReport},
			{"SmsSubmitReport", int(tpdu.SmsSubmitReport), ref.SubmitReport}, {"SmsSubmit", int(tpdu.SmsSubmit), ref.Submit},
			{"SmsStatusReport", int(tpdu.SmsStatusReport), ref.StatusReport}, {"SmsCommand", int(tpdu.SmsCommand), ref.Command},
			{"VpfNotPresent", int(tpdu.VpfNotPresent), 0}, {"VpfEnhanced", int(tpdu.VpfEnhanced), 1}, {"VpfRelative", int(tpdu.VpfRelative), 2}, {"VpfAbsolute", int(tpdu.VpfAbsolute), 3},
			{"MaxUDL", tpdu.MaxUDL, 140},
		} {
			k.Seen("name", n.name)
			if n.got != n.want {
				k.Fail("name:"+n.name, "%s is %#x, want %#x", n.name, n.got, n.want)
			}
		}
	})
	// values which print as a name are told apart by it
	c.Run("strings", 1, func(k *mon.Case) {
		distinct := func(what string, names ...string) {
			k.Seen("strings", what)
			seen := map[string]int{}
			for i, n := range names {
				if j, ok := seen[n]; ok || n == "" {
					k.Fail("string:"+what, "%s %d and %d are both %q", what, j, i, n)
				}
				seen[n] = i
			}
		}
		v := func(i int) string { return tpdu.ValidityPeriodFormat(i).String() }
		distinct("validity period format", v(0), v(1), v(2), v(3), v(4))
		e := func(i int) string { return tpdu.EnhancedValidityPeriodFormat(i).String() }
		distinct("enhanced format", e(0), e(1), e(2), e(3), e(4))
		m := func(i int) string { return tpdu.MessageType(i).String() }
		distinct("message type", m(0), m(1), m(2), m(4))
		t := func(i int) string { return tpdu.SmsType(i).String() }
		distinct("type", t(0), t(1), t(2), t(3), t(4), t(5), t(6))
		var pis, dcs []string
		for i := 0; i < 256; i++ {
			if i < 8 {
				pis = append(pis, tpdu.PI(i).String())
			}
			dcs = append(dcs, tpdu.DCS(i).String())
		}
		distinct("parameter indicator", pis...)
		distinct("data coding scheme", dcs...)
		for i := 0; i < 7; i++ {
			// each is named for what it is
			for _, n := range []string{"Deliver", "Submit", "Status", "Command", "Report"} {
				want := i < 6 && strings.Contains([]string{"Deliver", "DeliverReport", "SubmitReport", "Submit", "StatusReport", "Command"}[map[int]int{ref.Deliver: 0, ref.DeliverReport: 1, ref.SubmitReport: 2, ref.Submit: 3, ref.StatusReport: 4, ref.Command: 5, 6: 0}[i]], n)
				if got := strings.Contains(strings.ToLower(t(i)), strings.ToLower(n)); got != want {
					k.Fail("string:type", "type %d is %q", i, t(i))
				}
			}
		}
	})
	// construction options
	c.Run("new", c.N(2000), func(k *mon.Case) {
		r := k.R()
		st := r.IntN(6)
		d := byte(r.Uint32())
		h := genUDH(r, r.IntN(3), 40, true)
		da, oa := tpdu.NewAddress(tpdu.FromNumber(genNumber(r))), tpdu.NewAddress(tpdu.FromNumber(genNumber(r)))
		opts := []tpdu.Option{tpdu.SmsType(st), tpdu.DCS(d), tpdu.WithUDH(toUDH(h)), tpdu.WithDA(da), tpdu.WithOA(oa)}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		k.Input("type", st, "dcs", d, "udh", h)
		k.Seen("new", st, d, len(h))
		t, err := tpdu.New(opts...)
		if err != nil || t == nil {
			k.Fail("new", "%v", err)
			return
		}
		if int(t.SmsType()) != st || byte(t.DCS) != d || udhDiff(h, t.UDH) != "" || t.DA != da || t.OA != oa || t.UDHI() != (len(h) > 0) || t.RA.TOA != 0x80 {
			k.Fail("new", "options gave %+v", *t)
		}
		if !t.PI.DCS() || t.PI.UDL() != (len(h) > 0) || t.PI.PID() {
			k.Fail("new", "options gave PI %02x", byte(t.PI))
		}
		s, err := tpdu.NewSubmit(opts[r.IntN(5)])
		_ = s
		if err != nil {
			k.Fail("new", "%v", err)
		}
		s, err = tpdu.NewSubmit()
		dl, err2 := tpdu.NewDeliver()
		if err != nil || err2 != nil || s.SmsType() != tpdu.SmsSubmit || dl.SmsType() != tpdu.SmsDeliver {
			k.Fail("new", "constructors gave %v %v", s, dl)
		}
		if x, err := tpdu.New(tpdu.SmsType(6 + r.IntN(3))); err == nil || x != nil {
			k.Fail("new", "unknown type gave %v, %v", x, err)
		}
		t2 := tpdu.TPDU{}
		dir := tpdu.Direction(r.IntN(2))
		if err := dir.ApplyTPDUOption(&t2); err != nil || t2.Direction != dir {
			k.Fail("direction", "direction option %d gave %d", dir, t2.Direction)
		}
	})
}

// p24: BCD and semi-octets.
func p24(c *mon.Ctx) {
	c.Rule("exhaustive over all octets and integers for BCD, all octet pairs and digit counts for semi-octets, and random longer fields. Non-trivial: distinct inputs.")
	history(c, histSemiOctet()...)
	c.Run("bcd", 256, func(k *mon.Case) {
		o := byte(k.I)
		k.Input("octet", o)
		k.Seen("bcd", o)
		t, u := int(o&0xf), int(o>>4)
		v, err := bcd.Decode(o)
		if t > 9 || u > 9 {
			if err == nil {
				k.Fail("bcd-decode", "%02x decodes to %d", o, v)
			}
		} else {
			if err != nil || v != t*10+u {
				k.Fail("bcd-decode", "%02x decodes to %d, %v", o, v, err)
			}
			if b, err := bcd.Encode(t*10 + u); err != nil || b != o {
				k.Fail("bcd-encode", "%d encodes to %02x, %v, want %02x", t*10+u, b, err, o)
			}
		}
		v, err = bcd.DecodeSigned(o)
		st := t & 7
		want := st*10 + u
		if o&8 != 0 {
			want = -want
		}
		if u > 9 {
			if err == nil {
				k.Fail("bcd-signed-decode", "%02x decodes to %d", o, v)
			}
		} else {
			if err != nil || v != want {
				k.Fail("bcd-signed-decode", "%02x decodes to %d, %v, want %d", o, v, err, want)
			}
			if o != 8 { // negative zero
				if b, err := bcd.EncodeSigned(want); err != nil || b != o {
					k.Fail("bcd-signed-encode", "%d encodes to %02x, %v, want %02x", want, b, err, o)
				}
			}
		}
	})
	c.Run("integers", 2001, func(k *mon.Case) {
		i := k.I - 1000
		k.Input("integer", i)
		k.Seen("int", i)
		b, err := bcd.Encode(i)
		if (err == nil) != (i >= 0 && i <= 99) {
			k.Fail("bcd-encode", "%d encodes to %02x, %v", i, b, err)
		} else if err == nil {
			if v, err := bcd.Decode(b); err != nil || v != i {
				k.Fail("bcd-identity", "%d encodes to %02x decodes to %d", i, b, v)
			}
		}
		b, err = bcd.EncodeSigned(i)
		if (err == nil) != (i >= -79 && i <= 79) {
			k.Fail("bcd-signed-encode", "%d encodes to %02x, %v", i, b, err)
		} else if err == nil {
			if v, err := bcd.DecodeSigned(b); err != nil || v != i {
				k.Fail("bcd-signed-identity", "%d encodes to %02x decodes to %d", i, b, v)
			}
		}
	})
	c.Run("bigint", 64, func(k *mon.Case) {
		for _, i := range []int{1 << k.I, -(1 << k.I), 1<<k.I + 7, 256 + k.I, 356 + k.I, 65536 + k.I} {
			if i >= -79 && i <= 99 {
				continue
			}
			k.Seen("bigint", i)
			if b, err := bcd.Encode(i); err == nil {
				k.Fail("bcd-encode", "%d encodes to %02x", i, b)
			}
			if b, err := bcd.EncodeSigned(i); err == nil {
				k.Fail("bcd-signed-encode", "%d encodes to %02x", i, b)
			}
		}
	})
	c.Exhaustive("all BCD octets, signed and unsigned; all integers from -1000 to 1000; all octets as digits; all octet pairs as semi-octets for 0 to 5 digits")
	c.Run("digit", 256, func(k *mon.Case) {
		d := byte(k.I)
		i := strings.IndexByte(addrDigits, d)
		k.Seen("digit", d)
		b, err := semioctet.Encode([]byte{d})
		if (err == nil) != (i >= 0) {
			k.Fail("semi-encode", "digit %q encodes to %x, %v", d, b, err)
		} else if i >= 0 && (len(b) != 1 || b[0] != 0xf0|byte(i)) {
			k.Fail("semi-encode", "digit %q encodes to %x", d, b)
		}
		b, err = semioctet.Encode([]byte{'1', d})
		if (err == nil) != (i >= 0) {
			k.Fail("semi-encode", "digits \"1%c\" encodes to %x, %v", d, b, err)
		} else if i >= 0 && (len(b) != 1 || b[0] != byte(i)<<4|1) {
			k.Fail("semi-encode", "digits \"1%c\" encodes to %x", d, b)
		}
	})
	// decoding into n digits: digits in order with fill skipped, until dst or
	// src is exhausted; the unused half of the last octet must be fill.
	decode := func(n int, src []byte) (out []byte, read int, ok bool) {
		for read < len(src) && len(out) < n {
			o := src[read]
			read++
			if x := o & 0xf; x != 0xf {
				out = append(out, addrDigits[x])
			}
			if x := o >> 4; x != 0xf {
				if len(out) == n {
					return nil, read, false
				}
				out = append(out, addrDigits[x])
			}
		}
		return out, read, true
	}
	chk := func(k *mon.Case, n int, src []byte) {
		g := newGuard(src)
		dst := newGuard(make([]byte, n))
		out, read, err := semioctet.Decode(dst.b, g.b)
		k.Seen("semi", n, src)
		want, wread, ok := decode(n, src)
		if ok != (err == nil) || read != wread || ok && !bytes.Equal(out, want) {
			k.Fail("semi-decode", "%x into %d digits gives %q, read %d, %v, want %q, read %d, ok %v", src, n, out, read, err, want, wread, ok)
		}
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "%s", d)
		}
		if x := dst.b[:cap(dst.b)]; !bytes.Equal(x[n:], dst.copy[n:]) {
			k.Fail("dst-overrun", "wrote beyond the %d octets of the destination", n)
		}
	}
	c.Run("pairs", 256, func(k *mon.Case) {
		for x := 0; x < 256; x++ {
			for n := 0; n <= 5; n++ {
				chk(k, n, []byte{byte(k.I), byte(x)})
			}
		}
		for n := 0; n <= 3; n++ {
			chk(k, n, []byte{byte(k.I)})
			chk(k, n, nil)
		}
	})
	c.Run("fields", c.N(20000), func(k *mon.Case) {
		r := k.R()
		d := genDigits(r, r.IntN(30))
		k.Input("digits", d)
		want, _ := ref.SemiOctets(d)
		g := newGuard([]byte(d))
		b, err := semioctet.Encode(g.b)
		k.Seen("field", d)
		if err != nil || !bytes.Equal(b, want) {
			k.Fail("semi-encode", "encodes to %x, %v, want %x", b, err, want)
			return
		}
		if x := g.diff(); x != "" {
			k.Fail("input-modified", "%s", x)
		}
		out, n, err := semioctet.Decode(make([]byte, len(d)), b)
		if err != nil || n != len(b) || string(out) != d {
			k.Fail("semi-identity", "encodes to %x, decodes to %q, read %d, %v", b, out, n, err)
		}
		chk(k, r.IntN(len(d)+3), b)
		chk(k, r.IntN(20), r.Bytes(r.IntN(12)))
		bad := append([]byte(d), byte(r.Uint32()), '1')
		if strings.IndexByte(addrDigits, bad[len(d)]) < 0 {
			if b, err := semioctet.Encode(bad); err == nil {
				k.Fail("semi-encode", "%q encodes to %x", bad, b)
			}
		}
	})
}

// tzData is the zone which changes from one offset to the other at a given time.
func tzData(change int64, offs [2]int) []byte {
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, 1, 2, 8} {
		b = binary.BigEndian.AppendUint32(b, n)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(change))
	b = append(b, 1)
	for i, o := range offs {
		b = binary.BigEndian.AppendUint32(b, uint32(int32(o)))
		b = append(b, 0, byte(4*i))
	}
	return append(b, "OLD\x00NEW\x00"...)
}
