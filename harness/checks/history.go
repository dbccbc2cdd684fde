package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"

	"verifharness/mon"
	"verifharness/ref"
)

// things are receivers and arguments which may be used more than once.
type things struct {
	t     tpdu.TPDU
	addr  tpdu.Address
	smsc  pdumode.SMSCAddress
	pdu   pdumode.PDU
	ts    tpdu.Timestamp
	vp    tpdu.ValidityPeriod
	udh   tpdu.UserDataHeader
	lang  tpdu.UserDataHeader
	runes []rune
	ts4   [8]tpdu.TPDU
	segs  []*tpdu.TPDU
}

// hist is an operation the result of which is determined by its input, whatever
// was done before it and with the memory used.
type hist struct {
	name string
	gen  func(r *mon.Rng) []byte
	f    func(in []byte, x *things) any
}

// rendered renders all that can be reached from a result.
func rendered(vs ...any) string {
	var sb strings.Builder
	for _, v := range vs {
		showValue(&sb, reflect.ValueOf(v), 0)
		sb.WriteByte(' ')
	}
	return sb.String()
}

func showValue(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	if v.IsValid() && v.CanInterface() {
		switch x := v.Interface().(type) {
		case error:
			fmt.Fprintf(sb, "%T:%v", x, x)
			if d, ok := x.(ucs2.ErrDanglingSurrogate); ok {
				fmt.Fprintf(sb, "%x", []byte(d))
			}
			return
		case tpdu.Timestamp:
			sb.WriteString(x.String())
			return
		}
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		showValue(sb, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x", v.Bytes())
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			showValue(sb, v.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			showValue(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

// scribble overwrites the memory of a result.
func scribble(v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			if _, ok := v.Interface().(error); !ok {
				scribble(v.Elem(), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			switch {
			case e.Kind() == reflect.Uint8 && e.CanSet():
				e.SetUint(e.Uint() ^ 0x5a)
			case e.Kind() == reflect.Int32 && e.CanSet():
				e.SetInt(e.Int() ^ 0x5a)
			default:
				scribble(e, depth+1)
			}
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "time" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanInterface() {
				scribble(f, depth+1)
			}
		}
	}
}

// scribbleErr overwrites and extends the memory of several results, errors
// included.
func scribbleErr(vs any) {
	for _, v := range vs.([]any) {
		if x, ok := v.(ucs2.ErrDanglingSurrogate); ok {
			v = []byte(x)
		}
		fillSpare(reflect.ValueOf(v), 0)
		scribble(reflect.ValueOf(v), 0)
	}
}

// fillSpare overwrites the spare capacity of slices of octets.
func fillSpare(v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			if _, ok := v.Interface().(error); !ok {
				fillSpare(v.Elem(), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Slice3(v.Len(), v.Cap(), v.Cap()).Bytes()
			for i := range b {
				b[i] ^= 0x5a
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			fillSpare(v.Index(i), depth+1)
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "time" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanInterface() {
				fillSpare(f, depth+1)
			}
		}
	}
}

// results groups several.
func results(vs ...any) []any { return vs }

// history checks that results depend neither on what came before nor on what
// memory is used, and that they do not change afterwards.
func history(c *mon.Ctx, hs ...hist) {
	x := &things{}
	var buf []byte
	c.Run("history", c.N(600*len(hs)), func(k *mon.Case) {
		r := k.R()
		h := hs[k.I%len(hs)]
		a := h.gen(r)
		var b []byte
		switch r.IntN(4) {
		case 0: // nearly the same
			b = append(b, a...)
			if len(b) > 0 {
				b[r.IntN(len(b))] ^= byte(1 << r.IntN(7))
			}
		default: // another of the same length
			b = h.gen(r)
			for i := 0; i < 20 && len(b) != len(a); i++ {
				b = h.gen(r)
			}
			if len(b) > len(a) {
				b = b[:len(a)]
			}
			b = append(b[:len(b):len(b)], a[len(b):]...)
		}
		k.Input("operation", h.name, "first", a, "second", b)
		k.Seen(h.name, a, b)
		do := func(in []byte, x *things) (any, string) {
			v := h.f(in, x)
			return v, rendered(v)
		}
		va, sa := do(bytes.Clone(a), &things{})
		vb, sb := do(bytes.Clone(b), &things{})
		if s := rendered(va); s != sa {
			k.Fail("held:"+h.name, "the result of %s changed, when used again, from\n    %s to\n    %s", h.name, sa, s)
		}
		// the same memory, with different contents
		if cap(buf) < len(a) {
			buf = make([]byte, 2*len(a))
		}
		buf = buf[:len(a)]
		for i := 0; i < 2; i++ {
			copy(buf, a)
			if _, s := do(buf, x); s != sa {
				k.Fail("reuse:"+h.name, "%s of %x, in memory used before, is\n    %s, want\n    %s", h.name, a, s, sa)
			}
			copy(buf, b)
			if _, s := do(buf, x); s != sb {
				k.Fail("reuse:"+h.name, "%s of %x, in memory which held %x, is\n    %s, want\n    %s", h.name, b, a, s, sb)
			}
			if n := r.IntN(len(a) + 1); n < len(a) {
				if _, s := do(buf[:n], x); s != rendered(h.f(bytes.Clone(b[:n]), &things{})) {
					k.Fail("reuse:"+h.name, "%s of %x, in memory used before, is\n    %s", h.name, b[:n], s)
				}
			}
		}
		// results belong to the caller
		scribble(reflect.ValueOf(va), 0)
		scribble(reflect.ValueOf(vb), 0)
		if _, s := do(bytes.Clone(a), &things{}); s != sa {
			k.Fail("owned:"+h.name, "%s of %x, after overwriting a result, is\n    %s, want\n    %s", h.name, a, s, sa)
		}
		if _, s := do(bytes.Clone(b), &things{}); s != sb {
			k.Fail("owned:"+h.name, "%s of %x, after overwriting a result, is\n    %s, want\n    %s", h.name, b, s, sb)
		}
	})
}

// generators

func genWire(kinds ...int) func(r *mon.Rng) []byte {
	return func(r *mon.Rng) []byte {
		for {
			if b, ok := genTPDU(r, pick(r, kinds)).Bytes(); ok {
				return b
			}
		}
	}
}

var allKinds = []int{0, 1, 2, 3, 4, 5}

func genSeptets(r *mon.Rng) []byte {
	b := r.Bytes(r.Range(1, pick(r, []int{8, 40, 200})))
	for i := range b {
		b[i] &= 0x7f
	}
	return b
}

func genOctets(r *mon.Rng) []byte { return r.Bytes(r.Range(1, pick(r, []int{8, 40, 300}))) }

func genWords(r *mon.Rng) []byte {
	kind := pick(r, []int{kDefault, kDefault, kBMP, kMixed, kLock, kShift})
	return []byte(genText(r, kind, r.Range(1, 13), r.Range(1, pick(r, []int{10, 100, 400}))))
}

func genUnits(r *mon.Rng) []byte {
	return ref.EncodeUCS2(genText(r, pick(r, []int{kBMP, kAstral}), 0, r.Range(1, 80)))
}

// operations

func histUnmarshal(mo bool, kinds ...int) hist {
	d := tpdu.MT
	if mo {
		d = tpdu.MO
	}
	return hist{fmt.Sprintf("Unmarshal(%v)", d), genWire(kinds...), func(in []byte, x *things) any {
		x.t.Direction = d
		err := x.t.UnmarshalBinary(in)
		if err != nil {
			return err
		}
		// the receiver is used again, so all it refers to is copied
		t, err := unmarshal(in, mo)
		if d := same(&x.t, t); d != "" {
			return results(x.t, t, d)
		}
		return results(t, err)
	}}
}

func histMarshal() hist {
	return hist{"Marshal", genWire(allKinds...), func(in []byte, x *things) any {
		// data which is in the caller's memory
		m, _, err := ref.Parse(in, true)
		if err != nil {
			if m, _, err = ref.Parse(in, false); err != nil {
				return nil
			}
		}
		ud, udh := x.t.UD, x.t.UDH
		x.t = *toTPDU(m)
		x.t.UD = append(ud[:0], x.t.UD...)
		if len(udh) >= len(x.t.UDH) {
			for i, e := range x.t.UDH {
				udh[i].ID = e.ID
				udh[i].Data = append(udh[i].Data[:0], e.Data...)
			}
			x.t.UDH = udh[:len(x.t.UDH)]
		}
		b, err := x.t.MarshalBinary()
		bs, l := x.t.UDBlockSize(), x.t.UDHL()
		s, n, c, ok := x.t.ConcatInfo()
		return results(b, err, bs, l, s, n, c, ok)
	}}
}

func histSegment() hist {
	return hist{"Segment", genOctets, func(in []byte, x *things) any {
		t := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DCS: 4}
		if len(in) > 0 {
			t.DCS = tpdu.DCS([]byte{0, 4, 8, 0xf0}[in[0]&3])
		}
		return t.Segment(in)
	}}
}

func histEncode(opts ...sms.EncoderOption) hist {
	return hist{fmt.Sprintf("Encode(%d options)", len(opts)), genWords, func(in []byte, x *things) any {
		p, err := sms.Encode(in, opts...)
		return results(p, err)
	}}
}

// histDecode decodes a message divided into segments.
func histDecode() hist {
	return hist{"Decode", genUnits, func(in []byte, x *things) any {
		x.segs = x.segs[:0]
		n := 1 + len(in)/2%4
		for i := 0; i < n; i++ {
			t := &x.ts4[i]
			t.DCS = 8
			t.UD = append(t.UD[:0], in[len(in)/2*i/n*2:len(in)/2*(i+1)/n*2]...)
			x.segs = append(x.segs, t)
		}
		m, err := sms.Decode(x.segs)
		if err != nil {
			return err
		}
		return m
	}}
}

func histComplete() hist {
	gen := func(r *mon.Rng) []byte {
		n := r.Range(1, 4)
		var b []byte
		c := byte(r.IntN(3))
		for i := 1; i <= n; i++ {
			b = append(b, c, byte(n), byte(i))
		}
		return b
	}
	return hist{"IsCompleteMessage", gen, func(in []byte, x *things) any {
		x.segs = x.segs[:0]
		for i := 0; i+2 < len(in) && i/3 < len(x.ts4); i += 3 {
			t := &x.ts4[i/3]
			if len(t.UDH) == 0 {
				t.UDH = tpdu.UserDataHeader{{ID: 0, Data: make([]byte, 3)}}
			}
			t.UDH[0].ID = 0
			if in[i] == 2 {
				t.UDH[0].ID = 5
			}
			copy(t.UDH[0].Data, in[i:i+3])
			x.segs = append(x.segs, t)
		}
		var info []int
		for _, t := range x.segs {
			a, b, c, ok := t.ConcatInfo()
			info = append(info, a, b, c, b2i(ok))
		}
		return results(sms.IsCompleteMessage(x.segs), info)
	}}
}

func histUDH() []hist {
	gen := func(r *mon.Rng) []byte {
		return ref.UDHBytes(genUDH(r, r.Range(1, 4), pick(r, []int{8, 20, 60}), true))
	}
	return []hist{
		{"UDH.Unmarshal", gen, func(in []byte, x *things) any {
			n, err := x.udh.UnmarshalBinary(in)
			if err != nil {
				return err
			}
			var u tpdu.UserDataHeader
			u.UnmarshalBinary(in)
			if rendered(u) != rendered(x.udh) {
				return results(u, x.udh)
			}
			return results(u, n)
		}},
		{"UDH.Marshal", gen, func(in []byte, x *things) any {
			var u tpdu.UserDataHeader
			if _, err := u.UnmarshalBinary(in); err != nil {
				return nil
			}
			if len(u) <= len(x.udh) { // in the same memory
				for i := range u {
					x.udh[i].ID = u[i].ID
					x.udh[i].Data = append(x.udh[i].Data[:0], u[i].Data...)
				}
				x.udh = x.udh[:len(u)]
			} else {
				x.udh = u
			}
			b, err := x.udh.MarshalBinary()
			s, n, c, ok := x.udh.ConcatInfo()
			e, found := x.udh.IE(8)
			return results(b, err, x.udh.UDHL(), s, n, c, ok, rendered(e), found, len(x.udh.IEs(0)))
		}},
	}
}

func histAddress() []hist {
	gen := func(r *mon.Rng) []byte { b, _ := genAddr(r).Bytes(); return b }
	return []hist{
		{"Address.Unmarshal", gen, func(in []byte, x *things) any {
			n, err := x.addr.UnmarshalBinary(in)
			if err != nil {
				return err
			}
			return results(n, x.addr)
		}},
		{"Address.Marshal", gen, func(in []byte, x *things) any {
			var a tpdu.Address
			if _, err := a.UnmarshalBinary(in); err != nil {
				return nil
			}
			x.addr = a
			b, err := x.addr.MarshalBinary()
			return results(b, err, x.addr.Number())
		}},
	}
}

func histPDU() []hist {
	gen := func(r *mon.Rng) []byte {
		n := r.IntN(8)
		b := append([]byte{byte(n + 1), 0x91}, r.Bytes(n)...)
		return append(b, r.Bytes(r.IntN(30))...)
	}
	return []hist{
		{"PDU.Unmarshal", gen, func(in []byte, x *things) any {
			if err := x.pdu.UnmarshalBinary(in); err != nil {
				return err
			}
			p, err := pdumode.UnmarshalBinary(in)
			if err != nil || rendered(*p) != rendered(x.pdu) {
				return results(p, x.pdu, err)
			}
			return p
		}},
		{"PDU.Marshal", gen, func(in []byte, x *things) any {
			p, err := pdumode.UnmarshalBinary(in)
			if err != nil {
				return nil
			}
			x.pdu.SMSC = p.SMSC
			x.pdu.TPDU = append(x.pdu.TPDU[:0], p.TPDU...)
			b, err := x.pdu.MarshalBinary()
			s, err2 := x.pdu.MarshalHexString()
			return results(b, err, s, err2)
		}},
	}
}

func histTimestamp() []hist {
	gen := func(r *mon.Rng) []byte { return genStamp(r).Bytes() }
	return []hist{
		{"Timestamp", gen, func(in []byte, x *things) any {
			if err := x.ts.UnmarshalBinary(in); err != nil {
				return err
			}
			b, err := x.ts.MarshalBinary()
			return results(x.ts, x.ts.String(), b, err)
		}},
	}
}

func histPeriod() []hist {
	gen := func(r *mon.Rng) []byte {
		v := genVP(r)
		b, _ := v.Bytes()
		return append([]byte{byte(v.Format)}, b...)
	}
	return []hist{
		{"ValidityPeriod", gen, func(in []byte, x *things) any {
			if len(in) == 0 {
				return nil
			}
			x.vp = tpdu.ValidityPeriod{}
			n, err := x.vp.UnmarshalBinary(in[1:], tpdu.ValidityPeriodFormat(in[0]))
			if err != nil {
				return err
			}
			b, err := x.vp.MarshalBinary()
			return results(n, x.vp, b, err)
		}},
	}
}

func histPacking() []hist {
	var out []hist
	for _, fill := range []int{0, 1, 3, 6} {
		out = append(out,
			hist{fmt.Sprintf("Pack7Bit(%d)", fill), genSeptets, func(in []byte, x *things) any { return gsm7.Pack7Bit(in, fill) }},
			hist{fmt.Sprintf("Unpack7Bit(%d)", fill), genOctets, func(in []byte, x *things) any { return gsm7.Unpack7Bit(in, fill) }},
			hist{fmt.Sprintf("Pack7BitUSSD(%d)", fill), genSeptets, func(in []byte, x *things) any { return gsm7.Pack7BitUSSD(in, fill) }},
			hist{fmt.Sprintf("Unpack7BitUSSD(%d)", fill), genOctets, func(in []byte, x *things) any { return gsm7.Unpack7BitUSSD(in, fill) }})
	}
	return out
}

func histGSM7() []hist {
	var out []hist
	for _, n := range []int{0, 1, 3, 13} {
		out = append(out,
			hist{fmt.Sprintf("gsm7.Encode(%d)", n), genWords, func(in []byte, x *things) any {
				b, err := gsm7.Encode(in, gsm7.WithCharset(n), gsm7.WithExtCharset(n))
				return results(b, err)
			}},
			hist{fmt.Sprintf("gsm7.Decode(%d)", n), genSeptets, func(in []byte, x *things) any {
				b, err := gsm7.Decode(in, gsm7.WithCharset(n), gsm7.WithExtCharset(n))
				s, err2 := gsm7.Decode(in, gsm7.Strict)
				return results(b, err, s, err2)
			}})
	}
	return out
}

func histUD() []hist {
	return []hist{
		{"EncodeUserData", genWords, func(in []byte, x *things) any {
			ud, udh, a := tpdu.EncodeUserData(in, tpdu.WithAllCharsets)
			return results(ud, udh, int(a))
		}},
		{"DecodeUserData", genSeptets, func(in []byte, x *things) any {
			if x.lang == nil {
				for _, id := range []byte{0x25, 0x24, 25, 24, 19, 18} { // whichever name languages
					x.lang = append(x.lang, tpdu.InformationElement{ID: id, Data: []byte{0}})
				}
			}
			for i := range x.lang {
				x.lang[i].Data[0] = 0
				if len(in) > 2 {
					x.lang[i].Data[0] = in[i&1] % 15
				}
			}
			b, err := tpdu.DecodeUserData(in, x.lang, tpdu.Alpha7Bit, tpdu.WithAllCharsets)
			return results(b, err)
		}},
	}
}

func histUCS2() []hist {
	return []hist{
		{"ucs2.Decode", genUnits, func(in []byte, x *things) any {
			u, err := ucs2.Decode(in)
			return results(u, err)
		}},
		{"ucs2.Encode", genUnits, func(in []byte, x *things) any {
			x.runes = x.runes[:0]
			for i := 0; i+1 < len(in); i += 2 {
				x.runes = append(x.runes, rune(in[i])<<8|rune(in[i+1]))
			}
			return ucs2.Encode(x.runes)
		}},
	}
}

func histSemiOctet() []hist {
	digits := func(r *mon.Rng) []byte {
		b := make([]byte, r.Range(1, 24))
		for i := range b {
			b[i] = "0123456789*#abc"[r.IntN(15)]
		}
		return b
	}
	return []hist{
		{"semioctet.Encode", digits, func(in []byte, x *things) any {
			b, err := semioctet.Encode(in)
			return results(b, err)
		}},
		{"semioctet.Decode", genOctets, func(in []byte, x *things) any {
			b, n, err := semioctet.Decode(make([]byte, 2*len(in)), in)
			return results(b, n, err)
		}},
	}
}

func allHist() []hist {
	hs := []hist{histUnmarshal(true, allKinds...), histUnmarshal(false, allKinds...), histMarshal(), histSegment(), histEncode(), histEncode(sms.WithAllCharsets), histEncode(sms.AsUCS2), histDecode(), histComplete()}
	for _, x := range [][]hist{histUDH(), histAddress(), histPDU(), histTimestamp(), histPeriod(), histPacking(), histGSM7(), histUD(), histUCS2(), histSemiOctet()} {
		hs = append(hs, x...)
	}
	return hs
}
