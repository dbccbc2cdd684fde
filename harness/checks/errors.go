package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"

	"verifharness/mon"
	"verifharness/ref"
)

func init() { Reg["P28"] = p28 }

// says checks that what an error prints contains each part.
func says(k *mon.Case, key string, err error, parts ...string) {
	s := err.Error()
	for _, p := range parts {
		if !strings.Contains(s, p) {
			k.Fail("text:"+key, "the error %q does not mention %q", s, p)
			return
		}
	}
}

// p28: errors name the field, where it is, and the cause.
func p28(c *mon.Ctx) {
	c.Rule("TPDUs, and their parts, which cannot be decoded or encoded are given to the code and the error compared with the field, the octet and the cause found by the reference; the error from decoding a part alone is compared with that from decoding it in place, displaced to where the part begins. Values which fields cannot hold are enumerated and the error compared with the value. Non-trivial: distinct rejected inputs.")
	decode := func(k *mon.Case, b []byte, mo bool) {
		k.Reset()
		k.Input("src", b, "mo", mo)
		_, w, rerr := ref.Parse(b, mo)
		if rerr == nil || rerr == ref.ErrDontCare {
			c.Trivial()
			return
		}
		k.Seen(b, mo)
		_, err := unmarshal(b, mo)
		if err == nil {
			k.Fail("accepted", "accepted, but %s at octet %d is %v", w.Field, w.Off, rerr)
			return
		}
		de, ok := rejection(k, b, err, w, rerr)
		if !ok {
			return
		}
		c.Count("decode."+w.Field+"."+rerr.Error(), 1)
		kind := "tpdu"
		if w.Field != "firstOctet" {
			n := int(b[0]&3) << 1
			if mo {
				n |= 1
			}
			kind = ref.TypeName[n]
		}
		if !strings.HasPrefix(de.Field, kind+".") {
			k.Fail("type", "error is %v, but the TPDU is a %s", err, kind)
		}
		says(k, "decode", err, de.Field, strconv.Itoa(de.Offset), de.Err.Error())
		// the part at fault alone
		var perr error
		at, path := w.Off, kind+"."+w.Field
		switch w.Field {
		case "oa", "da", "ra":
			var a tpdu.Address
			_, perr = a.UnmarshalBinary(b[at:])
		case "scts", "dt":
			var t tpdu.Timestamp
			perr = t.UnmarshalBinary(b[at:])
		case "vp":
			var v tpdu.ValidityPeriod
			_, perr = v.UnmarshalBinary(b[at:], tpdu.FirstOctet(b[0]).VPF())
		case "ud":
			if !strings.Contains(de.Field, ".udh") {
				return
			}
			at++
			path += ".udh"
			var h tpdu.UserDataHeader
			_, perr = h.UnmarshalBinary(b[at:])
		default:
			return
		}
		if perr == nil {
			k.Fail("part", "error is %v, but the %s alone is accepted", err, w.Field)
			return
		}
		want := tpdu.DecodeError{Field: path, Offset: at, Err: perr}
		var pe tpdu.DecodeError
		if errors.As(perr, &pe) {
			want = tpdu.DecodeError{Field: path + "." + pe.Field, Offset: at + pe.Offset, Err: pe.Err}
			if pe.Offset < 0 || pe.Offset > len(b)-at {
				k.Fail("part-offset", "error for %x alone is %v", b[at:], perr)
			}
		}
		if fmt.Sprintf("%#v", de) != fmt.Sprintf("%#v", want) {
			k.Fail("part", "error is %#v, want %#v, as that for %x alone is %#v", de, want, b[at:], perr)
		}
		c.Count("parts", 1)
	}
	c.Run("hostile", c.N(60000), func(k *mon.Case) {
		b, mo := hostile(k.R())
		decode(k, b, mo)
	})
	c.Run("truncated", c.N(900), func(k *mon.Case) {
		m := genTPDU(k.R(), k.I%6)
		b, ok := m.Bytes()
		if !ok {
			panic("harness: unrepresentable")
		}
		for i := range b {
			decode(k, b[:i:i], m.Kind&1 == 1)
		}
		decode(k, append(bytes.Clone(b), k.R().Bytes(1)...), m.Kind&1 == 1)
	})
	// every value of every octet of the fixed fields, and the header
	c.Run("sweep", c.N(18), func(k *mon.Case) {
		r := k.R()
		m := genTPDU(r, k.I%6)
		if len(m.UD) > 6 {
			m.UD = m.UD[:6]
		}
		b, ok := m.Bytes()
		if !ok {
			panic("harness: unrepresentable")
		}
		for i := 0; i < len(b) && i < 50; i++ {
			for v := 0; v < 256; v++ {
				x := bytes.Clone(b)
				x[i] = byte(v)
				decode(k, x, m.Kind&1 == 1)
			}
			c.Beat()
		}
	})
	// octets at fault which are known exactly
	c.Run("digits", c.N(6000), func(k *mon.Case) {
		r := k.R()
		m := genTPDU(r, pick(r, []int{ref.Deliver, ref.Submit, ref.StatusReport, ref.SubmitReport}))
		if m.Kind == ref.Submit {
			m.FO |= 0x18
			m.VP = ref.VP{Format: ref.VPAbsolute, Stamp: ref.Stamp{Y: 20, Mo: 2, D: 29}}
		}
		b, ok := m.Bytes()
		if !ok {
			panic("harness: unrepresentable")
		}
		at, field := 0, "scts"
		a, _ := m.Addr.Bytes()
		switch m.Kind {
		case ref.Deliver:
			at = 1 + len(a) + 2
		case ref.Submit:
			at, field = 2+len(a)+2, "vp"
		case ref.StatusReport:
			at = 2 + len(a)
			if r.P(1, 2) {
				at, field = at+7, "dt"
			}
		case ref.SubmitReport:
			at = 2
			if b[0]&3 != 1 || m.FCS == 0 {
				c.Trivial()
				return
			}
			at = 3
		}
		i := r.IntN(7)
		x := byte(r.Range(10, 15))<<4 | byte(r.IntN(10))
		if i < 6 && r.P(1, 2) {
			x = x>>4 | x<<4
		}
		b[at+i] = x
		k.Input("src", b, "at", at, "field", field)
		k.Seen("digits", b)
		_, err := unmarshal(b, m.Kind&1 == 1)
		var de tpdu.DecodeError
		if !errors.As(err, &de) || de.Err != bcd.ErrInvalidOctet(x) || !strings.HasPrefix(de.Field, ref.TypeName[m.Kind]+"."+field) || de.Offset < at || de.Offset > at+i {
			k.Fail("digits", "the %s at octet %d has %02x for octet %d: error is %#v", field, at, x, i, err)
		}
	})
	// what cannot be encoded
	c.Run("encode", c.N(40000), func(k *mon.Case) {
		r := k.R()
		m := genTPDU(r, k.I%6)
		if m.Kind == ref.DeliverReport || m.Kind == ref.SubmitReport {
			for m.PI&4 == 0 {
				m = genTPDU(r, k.I%6)
			}
		}
		why := overflow(r, m)
		t := toTPDU(m)
		k.Input("constraint", why, "tpdu", *t)
		k.Seen(why, ref.TypeName[m.Kind], fmt.Sprint(len(m.UD), ref.UDHLen(m.UDH), m.Addr.Text, m.DCS, m.VP.EFI))
		_, err := t.MarshalBinary()
		if err == nil {
			k.Fail("encoded", "%s which violates %s marshalled", ref.TypeName[m.Kind], why)
			return
		}
		c.Count("encode."+why, 1)
		field := "ud"
		var cause error
		switch why {
		case "ud-length", "udh-length", "ied-length":
			cause = tpdu.ErrOverlength
			if m.Kind == ref.Command && why != "ud-length" {
				field = "udh"
			}
		case "odd-ucs2":
			cause = tpdu.ErrOddUCS2Length
		case "dcs", "vp-format":
			cause = tpdu.ErrInvalid
		case "address-length":
			cause = tpdu.ErrOverlength
		case "address-digit":
			for i := 0; i < len(m.Addr.Text); i++ {
				if !strings.Contains(addrDigits, m.Addr.Text[i:i+1]) {
					cause = semioctet.ErrInvalidDigit(m.Addr.Text[i])
					break
				}
			}
		case "address-alphabet":
			var u gsm7.ErrInvalidUTF8
			for _, x := range m.Addr.Text {
				if _, ok := ref.EncodeGSM(string(x), ref.LockInv(0), nil); !ok {
					u = gsm7.ErrInvalidUTF8(x)
					break
				}
			}
			cause = u
		default:
			panic("harness: " + why)
		}
		switch {
		case strings.HasPrefix(why, "address"):
			field = map[int]string{ref.Deliver: "oa", ref.Submit: "da", ref.Command: "da", ref.StatusReport: "ra"}[m.Kind]
		case why == "vp-format":
			field = "vp"
		}
		says(k, "encode", err, ref.TypeName[m.Kind]+"."+field, cause.Error())
		if field != "ud" && field != "udh" && strings.Contains(err.Error(), ".ud.") || field == "ud" && strings.Contains(err.Error(), "."+field+".addr") {
			k.Fail("field", "error is %v, but the field at fault is %s", err, field)
		}
	})
	c.Run("zones", 240, func(k *mon.Case) {
		q := k.I - 120
		if q >= -79 && q <= 79 {
			c.Trivial()
			return
		}
		ts := stampTime(ref.Stamp{Y: 20, Mo: 2, D: 29, H: 12, Quarters: q})
		ok := stampTime(ref.Stamp{Y: 20, Mo: 2, D: 29, H: 12})
		k.Input("quarters", q)
		one := tpdu.Address{TOA: 0x91, Addr: "1"}
		sub := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DA: one}
		var vp tpdu.ValidityPeriod
		vp.SetAbsolute(ts)
		sub.SetVP(vp)
		for _, x := range []struct {
			path string
			t    tpdu.TPDU
		}{
			{"SmsDeliver.scts", tpdu.TPDU{OA: one, SCTS: ts}},
			{"SmsSubmitReport.scts", tpdu.TPDU{FirstOctet: 1, FCS: 1, SCTS: ts}},
			{"SmsStatusReport.scts", tpdu.TPDU{FirstOctet: 2, RA: one, SCTS: ts, DT: ok}},
			{"SmsStatusReport.dt", tpdu.TPDU{FirstOctet: 2, RA: one, SCTS: ok, DT: ts}},
			{"SmsSubmit.vp", sub},
		} {
			k.Seen("zones", q, x.path)
			_, err := x.t.MarshalBinary()
			if err == nil {
				k.Fail("encoded", "a zone of %d quarters marshalled in %s", q, x.path)
				continue
			}
			says(k, "zones", err, x.path, bcd.ErrInvalidInteger(q).Error())
		}
		if _, err := ts.MarshalBinary(); err != bcd.ErrInvalidInteger(q) {
			k.Fail("zones", "a zone of %d quarters: %v", q, err)
		}
	})
	// errors which carry the value
	c.Run("octets", 256, func(k *mon.Case) {
		b := byte(k.I)
		k.Input("octet", b)
		k.Seen("octets", b)
		if b>>4 > 9 || b&15 > 9 {
			if _, err := bcd.Decode(b); err != bcd.ErrInvalidOctet(b) {
				k.Fail("bcd", "decoding %02x: %v", b, err)
			}
		}
		if b>>4 > 9 {
			if _, err := bcd.DecodeSigned(b); err != bcd.ErrInvalidOctet(b) {
				k.Fail("bcd", "decoding signed %02x: %v", b, err)
			}
		}
		says(k, "bcd", bcd.ErrInvalidOctet(b), fmt.Sprintf("%02x", b))
		if !strings.Contains(addrDigits, string(rune(b))) || b >= 0x80 {
			src := append([]byte(genDigits(k.R(), k.R().IntN(12))), b, '?', 'z')
			if _, err := semioctet.Encode(src); err != semioctet.ErrInvalidDigit(b) {
				k.Fail("semioctet", "encoding %q: %v, want %v", src, err, semioctet.ErrInvalidDigit(b))
			}
			says(k, "semioctet", semioctet.ErrInvalidDigit(b), fmt.Sprintf("%x", b))
		}
		if b >= 0x80 {
			if _, err := gsm7.Decode([]byte{'a', b}, gsm7.Strict); err != gsm7.ErrInvalidSeptet(b) {
				k.Fail("septet", "decoding %02x: %v", b, err)
			}
			says(k, "septet", gsm7.ErrInvalidSeptet(b), fmt.Sprintf("%02x", b))
		}
		says(k, "type", tpdu.ErrUnsupportedSmsType(b), fmt.Sprintf("%x", b))
	})
	c.Run("integers", 1200, func(k *mon.Case) {
		n := k.I - 600
		if k.I >= 1100 {
			n = int(int32(k.R().Uint32()))
		}
		k.Input("integer", n)
		k.Seen("integers", n)
		if n < 0 || n > 99 {
			if _, err := bcd.Encode(n); err != bcd.ErrInvalidInteger(n) {
				k.Fail("bcd", "encoding %d: %v", n, err)
			}
		}
		if n < -79 || n > 79 {
			if _, err := bcd.EncodeSigned(n); err != bcd.ErrInvalidInteger(n) {
				k.Fail("bcd", "encoding signed %d: %v", n, err)
			}
		}
		says(k, "bcd", bcd.ErrInvalidInteger(n), strconv.Itoa(n))
	})
	// the first of the characters which cannot be encoded
	c.Run("characters", c.N(6000), func(k *mon.Case) {
		r := k.R()
		s := genText(r, kASCII, 0, r.IntN(20))
		s += genText(r, pick(r, []int{kDefault, kExt, kLock, kMixed, kBMP, kAstral}), 1, 12)
		if r.P(1, 8) {
			s += string([]byte{0xff, 0xfe}[:r.Range(1, 2)])
		}
		bad, any := rune(0), false
		for _, u := range s {
			if _, ok := ref.EncodeGSM(string(u), ref.LockInv(0), ref.ShiftInv(0)); !ok {
				bad, any = u, true
				break
			}
		}
		k.Input("text", s)
		if !any {
			c.Trivial()
			return
		}
		k.Seen("characters", s)
		_, err := gsm7.Encode([]byte(s))
		if err != gsm7.ErrInvalidUTF8(bad) {
			k.Fail("character", "error is %#v, want %#v", err, gsm7.ErrInvalidUTF8(bad))
			return
		}
		says(k, "character", err, string(bad))
	})
	// message types which are not
	c.Run("types", 512, func(k *mon.Case) {
		b := []byte{byte(k.I)}
		mo := k.I >= 256
		if b[0]&3 != 3 {
			c.Trivial()
			return
		}
		st := tpdu.ErrUnsupportedSmsType(6)
		if mo {
			st = 7
		}
		k.Input("src", b, "mo", mo)
		k.Seen("types", b, mo)
		_, err := unmarshal(append(b, k.R().Bytes(k.R().IntN(30))...), mo)
		var de tpdu.DecodeError
		if !errors.As(err, &de) || de.Err != st || de.Offset != 0 || de.Field != "tpdu.firstOctet" {
			k.Fail("type", "error is %#v, want %#v for tpdu.firstOctet at 0", err, st)
		}
		t := tpdu.TPDU{FirstOctet: tpdu.FirstOctet(b[0])}
		if mo {
			t.Direction = tpdu.MO
		}
		if _, err := t.MarshalBinary(); err != st {
			k.Fail("type", "marshalling: error is %#v, want %#v", err, st)
		}
		t.UDH = tpdu.UserDataHeader{{ID: 0, Data: []byte{1, 2, 1}}}
		coll := sms.NewCollector()
		defer coll.Close()
		if _, err := coll.Collect(t); err != st {
			k.Fail("type", "collecting: error is %#v, want %#v", err, st)
		}
	})
	// service centre addresses
	c.Run("smsc", c.N(3000), func(k *mon.Case) {
		r := k.R()
		b := append([]byte{byte(r.IntN(14))}, r.Bytes(r.IntN(14))...)
		if r.P(1, 20) {
			b = nil
		}
		field, at := "", 0
		switch {
		case len(b) == 0:
			field = "length"
		case b[0] == 0:
		case len(b) < 2:
			field, at = "toa", 1
		case len(b) < 1+int(b[0]):
			field, at = "addr", 2
		}
		k.Input("src", b)
		if field == "" {
			c.Trivial()
			return
		}
		k.Seen("smsc", b)
		_, err := pdumode.UnmarshalBinary(b)
		_, herr := pdumode.UnmarshalHexString(fmt.Sprintf("%x", b))
		for _, err := range []error{err, herr} {
			var de tpdu.DecodeError
			if !errors.As(err, &de) || de.Field != field || de.Offset != at || de.Err != tpdu.ErrUnderflow {
				k.Fail("smsc", "error is %#v, want underflow of %s at %d", err, field, at)
				return
			}
		}
		says(k, "smsc", err, field, strconv.Itoa(at), tpdu.ErrUnderflow.Error())
	})
}
