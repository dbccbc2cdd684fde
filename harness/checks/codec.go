package checks

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	Reg["P10"] = p10
	Reg["P11"] = p11
	Reg["P12"] = p12
	Reg["P13"] = p13
}

func unmarshal(b []byte, mo bool) (*tpdu.TPDU, error) {
	if mo {
		return sms.Unmarshal(b, sms.AsMO)
	}
	return sms.Unmarshal(b, sms.AsMT)
}

// hostile generates TPDU like inputs: valid, mutated, truncated or extended
// TPDUs, and noise with a plausible prefix.
func hostile(r *mon.Rng) (b []byte, mo bool) {
	kind := r.IntN(6)
	mo = kind&1 == 1
	m := genTPDU(r, kind)
	if r.P(1, 6) {
		m.DCS = byte(r.Uint32())
		if kind >= ref.Command || kind == ref.DeliverReport || kind == ref.SubmitReport {
			m.PI |= 6
		}
	}
	b, ok := m.Bytes()
	if !ok || len(b) == 0 {
		b = r.Bytes(r.IntN(60))
	}
	switch r.IntN(12) {
	case 0, 1: // valid
	case 2, 3: // truncated
		b = b[:r.IntN(len(b)+1)]
	case 4: // extended
		b = append(b, r.Bytes(r.Range(1, 5))...)
	case 5, 6: // some octets changed
		for i := 0; i < r.Range(1, 3) && len(b) > 0; i++ {
			b[r.IntN(len(b))] = byte(r.Uint32())
		}
	case 7: // bits flipped
		for i := 0; i < r.Range(1, 3) && len(b) > 0; i++ {
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		}
	case 8: // octet removed or inserted
		if len(b) > 1 {
			i := r.IntN(len(b))
			if r.P(1, 2) {
				b = append(b[:i:i], b[i+1:]...)
			} else {
				b = append(append(b[:i:i], byte(r.Uint32())), b[i:]...)
			}
		}
	case 9: // extreme octet
		if len(b) > 0 {
			b[r.IntN(len(b))] = pick(r, []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe})
		}
	case 10: // noise
		b = r.Bytes(r.IntN(200))
	case 11: // noise tail
		if len(b) > 3 {
			i := r.Range(1, len(b)-1)
			copy(b[i:], r.Bytes(len(b)-i))
		}
	}
	if r.P(1, 10) {
		mo = !mo
	}
	return b, mo
}

func cloneTPDU(t *tpdu.TPDU) *tpdu.TPDU {
	c := *t
	c.UD = append([]byte(nil), t.UD...)
	c.UDH = nil
	for _, ie := range t.UDH {
		c.UDH = append(c.UDH, tpdu.InformationElement{ID: ie.ID, Data: append([]byte(nil), ie.Data...)})
	}
	return &c
}

// same compares two TPDUs of the code under test by content.
func same(a, b *tpdu.TPDU) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	x, y := *a, *b
	x.UD, y.UD, x.UDH, y.UDH = nil, nil, nil, nil
	sx, sy := fmt.Sprintf("%#v", x), fmt.Sprintf("%#v", y)
	if !x.SCTS.Equal(y.SCTS.Time) || !x.DT.Equal(y.DT.Time) || !x.VP.Time.Equal(y.VP.Time.Time) {
		return fmt.Sprintf("timestamps differ: %s and %s", sx, sy)
	}
	x.SCTS, y.SCTS, x.DT, y.DT, x.VP.Time, y.VP.Time = tpdu.Timestamp{}, tpdu.Timestamp{}, tpdu.Timestamp{}, tpdu.Timestamp{}, tpdu.Timestamp{}, tpdu.Timestamp{}
	sx, sy = fmt.Sprintf("%#v", x), fmt.Sprintf("%#v", y)
	if sx != sy {
		return fmt.Sprintf("%s and %s", sx, sy)
	}
	if !bytes.Equal(a.UD, b.UD) {
		return fmt.Sprintf("UD %x and %x", []byte(a.UD), []byte(b.UD))
	}
	if len(a.UDH) != len(b.UDH) {
		return fmt.Sprintf("UDH %v and %v", a.UDH, b.UDH)
	}
	for i := range a.UDH {
		if a.UDH[i].ID != b.UDH[i].ID || !bytes.Equal(a.UDH[i].Data, b.UDH[i].Data) {
			return fmt.Sprintf("UDH %v and %v", a.UDH, b.UDH)
		}
	}
	return ""
}

// p10: robustness of every decoder on any octets.
func p10(c *mon.Ctx) {
	c.Rule("decoder inputs: valid TPDUs of the six types, and the same truncated at every offset, extended, with octets or bits changed, inserted or removed, and noise; every input is presented in a guarded buffer. Non-trivial: distinct (input, direction).")
	history(c, append(append(append(append(append([]hist{histUnmarshal(false, allKinds...), histUnmarshal(true, allKinds...), histDecode()}, histUDH()[0], histAddress()[0], histPDU()[0]), histTimestamp()...), histPeriod()...), histUCS2()[0]), histSemiOctet()[1])...)
	check := func(k *mon.Case, b []byte, mo bool) {
		g := newGuard(b)
		k.Reset()
		k.Input("src", b, "mo", mo)
		t, err := unmarshal(g.b, mo)
		k.Seen(b, mo)
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "Unmarshal wrote to its input: %s", d)
			return
		}
		t2, err2 := unmarshal(g.b, mo)
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			k.Fail("nondeterministic", "two calls with the same input returned %v and %v", err, err2)
			return
		}
		if err != nil {
			c.Count("rejected", 1)
			if t != nil {
				k.Fail("tpdu-with-error", "returned a TPDU with error %v", err)
			}
			var de tpdu.DecodeError
			if !errors.As(err, &de) {
				k.Fail("error-type", "error %T %v is not a DecodeError", err, err)
				return
			}
			if de.Offset < 0 || de.Offset > len(b) {
				k.Fail("error-offset", "error %v has an offset outside of the %d octets of input", err, len(b))
			}
			want := "tpdu.firstOctet"
			if len(b) > 0 && b[0]&3 != 3 {
				kd := int(b[0]&3) << 1
				if mo {
					kd |= 1
				}
				want = ref.TypeName[kd] + "."
			}
			if !strings.HasPrefix(de.Field, want) {
				k.Fail("error-field", "error %v identifies field %q, want %s...", err, de.Field, want)
			}
			if de.Err == nil || err.Error() == "" {
				k.Fail("error-cause", "error %#v has no cause", err)
			}
			return
		}
		c.Count("accepted", 1)
		if t == nil || t2 == nil {
			k.Fail("nil-tpdu", "no TPDU and no error")
			return
		}
		if d := same(t, t2); d != "" {
			k.Fail("nondeterministic", "two calls with the same input returned different TPDUs: %s", d)
		}
		cl := cloneTPDU(t)
		full := g.b[:cap(g.b)]
		for i := range full {
			full[i] ^= 0xff
		}
		if d := same(t, cl); d != "" {
			k.Fail("aliased", "the TPDU changes when the input buffer is reused: %s", d)
			return
		}
		// whatever was accepted can be used
		m, err := sms.Decode([]*tpdu.TPDU{t})
		if err == nil {
			c.Count("decoded", 1)
		}
		_ = m
		_ = sms.IsCompleteMessage([]*tpdu.TPDU{t})
		_, _ = t.MarshalBinary()
		_ = t.UDBlockSize()
		_, _ = sms.NewCollector().Collect(*t)
	}
	// memory in proportion to the input
	c.Run("memory", c.N(250), func(k *mon.Case) {
		r := k.R()
		b, mo := hostile(r)
		if r.P(1, 4) {
			b = r.Bytes(pick(r, []int{0, 1, 2, 300, 5000, 60000}))
		}
		k.Input("src", b, "mo", mo)
		k.Seen("memory", b, mo)
		limit := uint64(128<<10 + 40*len(b)) // several times what is used
		cost := func(what string, f func()) {
			var least uint64 = math.MaxUint64
			for i := 0; i < 3; i++ { // others may allocate in the meantime
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				f()
				runtime.ReadMemStats(&m1)
				if least = min(least, m1.TotalAlloc-m0.TotalAlloc); least <= limit {
					c.Max("allocated_"+what, int64(least))
					return
				}
			}
			k.Fail("memory:"+what, "allocates %d octets for an input of %d", least, len(b))
		}
		h := hex.EncodeToString(b)
		t := &tpdu.TPDU{UD: b, DCS: tpdu.DCS(pick(r, []int{0, 4, 8}))}
		cost("tpdu", func() {
			if x, err := unmarshal(b, mo); err == nil {
				t = x
			}
		})
		cost("decode", func() { _, _ = sms.Decode([]*tpdu.TPDU{t}) })
		cost("marshal", func() { _, _ = t.MarshalBinary() })
		cost("collect", func() { _, _ = sms.NewCollector().Collect(*t) })
		cost("pdumode", func() { _, _ = pdumode.UnmarshalBinary(b); _, _ = pdumode.UnmarshalHexString(h) })
		cost("udh", func() { var u tpdu.UserDataHeader; _, _ = u.UnmarshalBinary(b) })
		cost("address", func() { var a tpdu.Address; _, _ = a.UnmarshalBinary(b) })
		cost("unpack", func() { _ = gsm7.Unpack7Bit(b, r.IntN(7)); _ = gsm7.Unpack7BitUSSD(b, 0) })
		cost("gsm7", func() { _, _ = gsm7.Decode(b, gsm7.Strict); _, _ = gsm7.Decode(b); _, _ = gsm7.Encode(b) })
		cost("ucs2", func() { _, _ = ucs2.Decode(b) })
		cost("semioctet", func() { _, _, _ = semioctet.Decode(make([]byte, 40), b); _, _ = semioctet.Encode(b) })
	})
	c.Run("hostile", c.N(60000), func(k *mon.Case) {
		b, mo := hostile(k.R())
		check(k, b, mo)
	})
	// every truncation of every kind
	c.Run("truncate", c.N(300), func(k *mon.Case) {
		m := genTPDU(k.R(), k.I%6)
		b, ok := m.Bytes()
		if !ok {
			panic("harness: unrepresentable")
		}
		for n := 0; n <= len(b); n++ {
			check(k, b[:n], m.Kind&1 == 1)
		}
	})
	// exhaustive short inputs
	c.Run("short", 2*257, func(k *mon.Case) {
		mo := k.I%2 == 1
		if k.I/2 == 256 {
			check(k, nil, mo)
			return
		}
		check(k, []byte{byte(k.I / 2)}, mo)
		for x := 0; x < 256; x++ {
			check(k, []byte{byte(k.I / 2), byte(x)}, mo)
		}
	})
	c.Exhaustive("all inputs of 0, 1 and 2 octets in both directions")
	// the component decoders
	c.Run("components", c.N(30000), func(k *mon.Case) {
		r := k.R()
		b, _ := hostile(r)
		if r.P(1, 3) && len(b) > 4 {
			b = b[r.IntN(len(b)):]
		}
		g := newGuard(b)
		k.Input("src", b)
		var udh tpdu.UserDataHeader
		n, err := udh.UnmarshalBinary(g.b)
		inRange := func(what string, n int, err error) {
			if n < 0 || n > len(b) && err == nil {
				k.Fail("count:"+what, "%s read %d of %d octets (err %v)", what, n, len(b), err)
			}
		}
		inRange("UDH", n, err)
		var a tpdu.Address
		n, err = a.UnmarshalBinary(g.b)
		inRange("Address", n, err)
		var s pdumode.SMSCAddress
		n, err = s.UnmarshalBinary(g.b)
		inRange("SMSCAddress", n, err)
		var ts tpdu.Timestamp
		_ = ts.UnmarshalBinary(g.b)
		for f := 0; f < 5; f++ {
			var v tpdu.ValidityPeriod
			n, err = v.UnmarshalBinary(g.b, tpdu.ValidityPeriodFormat(f))
			inRange("ValidityPeriod", n, err)
			if f == 4 && err == nil {
				k.Fail("vpf", "format 4 accepted")
			}
		}
		p, err := pdumode.UnmarshalBinary(g.b)
		if (p == nil) != (err != nil) {
			k.Fail("pdumode", "returned %v and %v", p, err)
		}
		h := hex.EncodeToString(b)
		if r.P(1, 4) && len(h) > 0 {
			i := r.IntN(len(h))
			h = h[:i] + string(rune(r.IntN(128))) + h[i+1:]
		}
		p, err = pdumode.UnmarshalHexString(h)
		if (p == nil) != (err != nil) {
			k.Fail("pdumode", "returned %v and %v", p, err)
		}
		fill := r.IntN(7)
		_ = gsm7.Unpack7Bit(g.b, fill)
		_ = gsm7.Unpack7BitUSSD(g.b, fill)
		_, _ = gsm7.Decode(g.b, gsm7.WithCharset(r.IntN(20)), gsm7.WithExtCharset(r.IntN(20)))
		_, _ = gsm7.Decode(g.b, gsm7.Strict)
		_, _ = gsm7.Encode(g.b)
		_, _ = ucs2.Decode(g.b)
		_, n, err = semioctet.Decode(make([]byte, r.IntN(40)), g.b)
		inRange("semioctet", n, err)
		_, _ = semioctet.Encode(g.b)
		for al := 0; al < 4; al++ {
			_, _ = tpdu.DecodeUserData(g.b, udh, tpdu.Alphabet(al), tpdu.WithAllCharsets)
		}
		k.Seen("components", b)
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "a decoder wrote to its input: %s", d)
		}
	})
	// what a decoder returns, an error included, follows from its input alone,
	// and stays as it is when the input is gone
	c.Run("independent", c.N(12000), func(k *mon.Case) {
		r := k.R()
		b, _ := hostile(r)
		switch r.IntN(4) {
		case 0:
			b = b[min(len(b), r.IntN(20)):]
		case 1:
			b = genUnits(r)
			if r.P(1, 2) { // half a pair at the end
				b = append(b, 0xd8|byte(r.IntN(8)), byte(r.Uint32()))
			}
		case 2:
			b = genSeptets(r)
		}
		fill, nli, nli2, cut := r.IntN(7), r.IntN(15), r.IntN(15), r.IntN(len(b)+1)
		digits := r.IntN(40)
		lang := tpdu.UserDataHeader{{ID: 0x24, Data: []byte{byte(nli)}}, {ID: 0x25, Data: []byte{byte(nli2)}}}
		k.Input("src", b, "fill", fill, "nli", nli, "nli2", nli2, "cut", cut)
		k.Seen("independent", b)
		pair := func(v any, err error) any { return results(v, err) }
		ops := []struct {
			name string
			f    func(in []byte) any
		}{
			{"sms.Unmarshal MT", func(in []byte) any { return pair(unmarshal(in, false)) }},
			{"sms.Unmarshal MO", func(in []byte) any { return pair(unmarshal(in, true)) }},
			{"UserDataHeader", func(in []byte) any {
				var u tpdu.UserDataHeader
				n, err := u.UnmarshalBinary(in)
				return results(u, n, err)
			}},
			{"Address", func(in []byte) any {
				var a tpdu.Address
				n, err := a.UnmarshalBinary(in)
				return results(&a, n, err)
			}},
			{"SMSCAddress", func(in []byte) any {
				var a pdumode.SMSCAddress
				n, err := a.UnmarshalBinary(in)
				return results(&a, n, err)
			}},
			{"Timestamp", func(in []byte) any {
				var ts tpdu.Timestamp
				return results(&ts, ts.UnmarshalBinary(in))
			}},
			{"ValidityPeriod", func(in []byte) any {
				var out []any
				for f := 0; f < 5; f++ {
					var v tpdu.ValidityPeriod
					n, err := v.UnmarshalBinary(in, tpdu.ValidityPeriodFormat(f))
					out = append(out, &v, n, err)
				}
				return out
			}},
			{"pdumode.UnmarshalBinary", func(in []byte) any { return pair(pdumode.UnmarshalBinary(in)) }},
			{"Unpack7Bit", func(in []byte) any { return results(gsm7.Unpack7Bit(in, fill)) }},
			{"Unpack7BitUSSD", func(in []byte) any { return results(gsm7.Unpack7BitUSSD(in, fill)) }},
			{"gsm7.Decode", func(in []byte) any {
				return pair(gsm7.Decode(in, gsm7.WithCharset(nli), gsm7.WithExtCharset(nli2)))
			}},
			{"gsm7.Decode strict", func(in []byte) any { return pair(gsm7.Decode(in, gsm7.Strict)) }},
			{"gsm7.Encode", func(in []byte) any { return pair(gsm7.Encode(in)) }},
			{"ucs2.Decode", func(in []byte) any { return pair(ucs2.Decode(in)) }},
			{"semioctet.Decode", func(in []byte) any {
				d, n, err := semioctet.Decode(make([]byte, digits), in)
				return results(d, n, err)
			}},
			{"semioctet.Encode", func(in []byte) any { return pair(semioctet.Encode(in)) }},
			{"DecodeUserData", func(in []byte) any {
				var out []any
				for al := 0; al < 4; al++ {
					m, err := tpdu.DecodeUserData(in, lang, tpdu.Alphabet(al), tpdu.WithAllCharsets)
					out = append(out, m, err)
				}
				return out
			}},
			{"EncodeUserData", func(in []byte) any {
				ud, udh, al := tpdu.EncodeUserData(in, tpdu.WithAllCharsets)
				return results(ud, udh, int(al))
			}},
			{"sms.Decode", func(in []byte) any {
				var out []any
				for _, dcs := range []tpdu.DCS{0, 4, 8} {
					x := &tpdu.TPDU{DCS: dcs, UD: in[:cut]}
					y := &tpdu.TPDU{DCS: dcs, UD: in[cut:]}
					m, err := sms.Decode([]*tpdu.TPDU{x, y})
					out = append(out, m, err)
					m, err = sms.Decode([]*tpdu.TPDU{x})
					out = append(out, m, err)
				}
				return out
			}},
		}
		for _, op := range ops {
			// alone in memory, with nothing following
			v := op.f(bytes.Clone(b)[:len(b):len(b)])
			want := rendered(v)
			// followed by other things
			after := r.Bytes(r.Range(1, 40))
			if r.P(1, 2) { // plausible ones
				after = bytes.Repeat([]byte{pick(r, []byte{0, 0x1b, 0x0d, 0xdc, 0xff, 0x21})}, r.Range(1, 40))
			}
			full := append(bytes.Clone(b), after...)
			w := op.f(full[:len(b)])
			if s := rendered(w); s != want {
				k.Fail("following:"+op.name, "%s of %x followed in memory by %x is\n    %s, want\n    %s", op.name, b, after, s, want)
			}
			for i := range full {
				full[i] ^= 0x5a
			}
			if s := rendered(w); s != want {
				k.Fail("aliased:"+op.name, "what %s of %x returned changed, when its source was overwritten, from\n    %s to\n    %s", op.name, b, want, s)
			}
			// nor is the source altered through what is returned
			full = append(bytes.Clone(b), after...)
			was := bytes.Clone(full)
			scribbleErr(op.f(full[:len(b)]))
			if !bytes.Equal(full, was) {
				k.Fail("alias:"+op.name, "writing to what %s returned changed the source from %x to %x", op.name, was, full)
			}
		}
	})
}

// rejection checks that the error a decoder returned is for the fault found by the
// reference.
func rejection(k *mon.Case, b []byte, err error, w ref.Where, rerr error) (de tpdu.DecodeError, ok bool) {
	if !errors.As(err, &de) {
		k.Fail("error-type", "error %v is not a DecodeError", err)
		return de, false
	}
	var want error
	switch rerr {
	case ref.ErrShort:
		want = tpdu.ErrUnderflow
	case ref.ErrLong:
		want = tpdu.ErrOverlength
	case ref.ErrOdd:
		want = tpdu.ErrOddUCS2Length
	}
	if want != nil && !errors.Is(de.Err, want) {
		k.Fail("error-class:"+w.Field, "error is %v, want %v for %s at octet %d", err, want, w.Field, w.Off)
	}
	if want == nil && rerr != ref.ErrSpare && (errors.Is(de.Err, tpdu.ErrUnderflow) || errors.Is(de.Err, tpdu.ErrOverlength)) {
		k.Fail("error-class:"+w.Field, "error is %v, for invalid %s at octet %d", err, w.Field, w.Off)
	}
	f := strings.Split(de.Field, ".")
	if len(f) < 2 || f[1] != w.Field || de.Offset < w.Off || de.Offset > len(b) {
		k.Fail("error-where:"+w.Field, "error is %v, but the field at fault is %s at octet %d", err, w.Field, w.Off)
	} else if len(f) == 2 && de.Offset != w.Off {
		k.Fail("error-offset:"+w.Field, "error is %v, but the %s starts at octet %d", err, w.Field, w.Off)
	}
	return de, true
}

// p11: decoding agrees with an independent decoder.
func p11(c *mon.Ctx) {
	c.Rule("each input is decoded by the code and by an independent bit level decoder written from 3GPP TS 23.040/23.038, and every field, or the rejection, its field and its class compared. Inputs as for P10, plus exhaustive single-octet sweeps over valid TPDUs. Non-trivial: distinct (input, direction) within the specified domain.")
	history(c, histUnmarshal(false, 0, 2, 4), histUnmarshal(true, 1, 3, 5))
	check := func(k *mon.Case, b []byte, mo bool) {
		k.Reset()
		k.Input("src", b, "mo", mo)
		m, w, rerr := ref.Parse(b, mo)
		t, err := unmarshal(b, mo)
		if rerr == ref.ErrDontCare {
			c.Trivial()
			c.Count("outside-domain", 1)
			return
		}
		k.Seen(b, mo)
		if rerr != nil {
			c.Count("rejections", 1)
			c.Count("rejections."+rerr.Error(), 1)
			if err == nil {
				k.Fail("accepted-invalid:"+w.Field, "accepted %x as %+v, but %s at octet %d is %v", b, t, w.Field, w.Off, rerr)
				return
			}
			rejection(k, b, err, w, rerr)
			return
		}
		c.Count("accepted."+ref.TypeName[m.Kind], 1)
		if err != nil {
			k.Fail("rejected-valid:"+ref.TypeName[m.Kind], "rejected with %v, but is a valid %s", err, ref.TypeName[m.Kind])
			return
		}
		if d := tpduDiff(m, t); d != "" {
			k.Fail("field:"+ref.TypeName[m.Kind], "decoded %s incorrectly: %s", ref.TypeName[m.Kind], d)
		}
		if r := k.R(); r.P(1, 3) {
			// into a TPDU which has been used, and whose parts may be held
			old := toTPDU(genTPDU(r, r.IntN(6)))
			if r.P(1, 4) {
				old.UDH = toUDH(genUDH(r, 3, 60, true))
				old.VP = rawVP(genVP(r))
				old.PI = tpdu.PI(r.Uint32())
			}
			old.Direction = t.Direction
			v, held := *old, cloneTPDU(old)
			if err := v.UnmarshalBinary(b); err != nil {
				k.Fail("used-rejected", "rejected with %v by a TPDU used before", err)
			} else if d := same(t, &v); d != "" {
				k.Fail("used", "a TPDU used before gives different fields: %s", d)
			}
			if d := same(held, old); d != "" {
				k.Fail("used-held", "the previous contents were altered: %s", d)
			}
			c.Count("receivers_reused", 1)
		}
	}
	c.Run("valid", c.N(30000), func(k *mon.Case) {
		m := genTPDU(k.R(), k.I%6)
		b, ok := m.Bytes()
		if !ok {
			panic("harness: unrepresentable")
		}
		check(k, b, m.Kind&1 == 1)
	})
	c.Run("hostile", c.N(80000), func(k *mon.Case) {
		b, mo := hostile(k.R())
		check(k, b, mo)
	})
	// every value of every octet, and every truncation
	c.Run("sweep", c.N(36), func(k *mon.Case) {
		r := k.R()
		m := genTPDU(r, k.I%6)
		if r.P(1, 2) && len(m.UD) > 12 { // keep it short
			m.UD = m.UD[:12]
		}
		b, ok := m.Bytes()
		if !ok {
			panic("harness: unrepresentable")
		}
		for i := 0; i < len(b) && i < 60; i++ {
			for v := 0; v < 256; v++ {
				x := append([]byte(nil), b...)
				x[i] = byte(v)
				check(k, x, m.Kind&1 == 1)
				check(k, x[:i+1:i+1], m.Kind&1 == 1)
			}
			check(k, b[:i], m.Kind&1 == 1)
			c.Beat()
		}
	})
}

// p12: marshalling agrees with an independent encoder, and unmarshalling
// inverts it.
func p12(c *mon.Ctx) {
	c.Rule("representable TPDUs of the six types with every field varied are marshalled by the code and an independent bit level encoder and the octets compared, then unmarshalled and compared field by field; accepted octet strings are re-marshalled and compared with their canonical form. Non-trivial: distinct octet strings.")
	history(c, histMarshal())
	c.Run("identity", c.N(60000), func(k *mon.Case) {
		r := k.R()
		m := genTPDU(r, k.I%6)
		if r.P(1, 20) && (m.Kind == ref.DeliverReport || m.Kind == ref.SubmitReport) {
			m.FCS = 0
		}
		want, ok := m.Bytes()
		if !ok {
			panic("harness: unrepresentable")
		}
		t := toTPDU(m)
		k.Input("tpdu", *t)
		got, err := t.MarshalBinary()
		k.Seen(want)
		c.Count("marshalled."+ref.TypeName[m.Kind], 1)
		if err != nil {
			k.Fail("marshal-error:"+ref.TypeName[m.Kind], "MarshalBinary failed: %v, want %x", err, want)
			return
		}
		if !bytes.Equal(got, want) {
			k.Fail("marshal:"+ref.TypeName[m.Kind], "marshalled to\n    %x, want\n    %x", got, want)
			return
		}
		if (m.Kind == ref.DeliverReport || m.Kind == ref.SubmitReport) && m.FCS == 0 {
			return // see the known finding below
		}
		u, err := unmarshal(got, m.Kind&1 == 1)
		if err != nil {
			k.Fail("unmarshal-error:"+ref.TypeName[m.Kind], "own output %x rejected: %v", got, err)
			return
		}
		if d := tpduDiff(m, u); d != "" {
			k.Fail("identity:"+ref.TypeName[m.Kind], "output %x decodes differently: %s", got, d)
		}
		// fields of other types are of no effect
		o := cloneTPDU(t)
		a := func() tpdu.Address {
			x := genAddr(r)
			return tpdu.Address{TOA: x.TOA, Addr: x.Text}
		}
		if m.Kind != ref.Deliver {
			o.OA = a()
		}
		if m.Kind != ref.Submit && m.Kind != ref.Command {
			o.DA = a()
		}
		if m.Kind != ref.StatusReport {
			o.RA = a()
			o.DT = stampTime(genStamp(r))
			o.ST = byte(r.Uint32())
		}
		if m.Kind != ref.Command {
			o.CT, o.MN = byte(r.Uint32()), byte(r.Uint32())
		}
		if m.Kind == ref.Deliver || m.Kind == ref.DeliverReport || m.Kind == ref.SubmitReport {
			o.MR = byte(r.Uint32())
		}
		if m.Kind == ref.Deliver || m.Kind == ref.Submit || m.Kind == ref.Command {
			if m.Kind != ref.Command {
				o.PI = tpdu.PI(r.Uint32())
			}
			o.FCS = byte(r.Uint32())
		}
		if m.Kind == ref.DeliverReport || m.Kind == ref.Submit || m.Kind == ref.Command {
			o.SCTS = stampTime(genStamp(r))
		}
		if m.Kind != ref.Deliver && m.Kind != ref.Submit && m.Kind != ref.Command {
			// nor are those the parameter indicator says are absent
			if !o.PI.PID() {
				o.PID = byte(r.Uint32())
			}
			if !o.PI.UDL() {
				o.UD = r.Bytes(r.IntN(20))
				o.UDH = toUDH(genUDH(r, r.IntN(2), 20, true))
				if !o.PI.DCS() {
					o.DCS = tpdu.DCS(r.Uint32())
				}
			}
		}
		if m.Kind == ref.Submit && m.FO>>3&3 != ref.VPAbsolute {
			o.VP.Time = stampTime(genStamp(r))
		}
		if m.Kind == ref.Submit && m.FO>>3&3 != ref.VPEnhanced {
			o.VP.EFI = byte(r.Uint32())
		}
		if x, err := o.MarshalBinary(); err != nil || !bytes.Equal(x, want) {
			k.Fail("leftover:"+ref.TypeName[m.Kind], "with fields of other types set, %+v, marshals to %x, %v, want %x", *o, x, err, want)
		}
		// UnmarshalBinary and the constructor option paths agree
		v := tpdu.TPDU{Direction: tpdu.Direction(m.Kind & 1)}
		if err := v.UnmarshalBinary(got); err != nil {
			k.Fail("unmarshal-error:"+ref.TypeName[m.Kind], "UnmarshalBinary rejects %x: %v", got, err)
		} else if d := same(u, &v); d != "" {
			k.Fail("unmarshal-paths", "Unmarshal and UnmarshalBinary differ: %s", d)
		}
	})
	c.Run("canonical", c.N(40000), func(k *mon.Case) {
		b, mo := hostile(k.R())
		m, _, rerr := ref.Parse(b, mo)
		if rerr != nil || m.FO&0x40 != 0 && len(m.UDH) == 0 || (m.Kind == ref.DeliverReport || m.Kind == ref.SubmitReport) && m.FCS == 0 {
			c.Trivial()
			return
		}
		for _, s := range []ref.Stamp{m.SCTS, m.DT, m.VP.Stamp} {
			if s != (ref.Stamp{}) && !s.Valid() {
				c.Trivial()
				return
			}
		}
		want, ok := m.Bytes()
		if !ok {
			c.Trivial()
			return
		}
		k.Input("src", b, "mo", mo)
		t, err := unmarshal(b, mo)
		if err != nil {
			k.Fail("rejected-valid", "rejected: %v", err)
			return
		}
		hasStamp := m.Kind == ref.Deliver || m.Kind == ref.SubmitReport || m.Kind == ref.StatusReport
		if hasStamp && !m.SCTS.Valid() || m.Kind == ref.StatusReport && !m.DT.Valid() || m.Kind == ref.Submit && m.VP.Format == ref.VPAbsolute && !m.VP.Stamp.Valid() {
			c.Trivial()
			return
		}
		k.Seen("canonical", want)
		got, err := t.MarshalBinary()
		if err != nil {
			k.Fail("remarshal-error", "re-marshalling failed: %v", err)
			return
		}
		if !bytes.Equal(got, want) {
			k.Fail("remarshal", "re-marshalled to\n    %x, want\n    %x", got, want)
		}
	})
	// the recorded finding: reports without a failure cause
	c.Run("report-fcs0", 2, func(k *mon.Case) {
		kind := []int{ref.DeliverReport, ref.SubmitReport}[k.I]
		m := &ref.TPDU{Kind: kind, FO: byte(kind >> 1), PI: 1, PID: 0x11}
		m.SCTS = ref.Stamp{Y: 20, Mo: 1, D: 2, H: 3, Mi: 4, S: 5}
		t := toTPDU(m)
		k.Input("tpdu", *t)
		b, err := t.MarshalBinary()
		k.Seen("fcs0", kind)
		if err != nil {
			k.Fail("marshal-error:fcs0", "MarshalBinary failed: %v", err)
			return
		}
		u, err := unmarshal(b, kind&1 == 1)
		if err != nil || tpduDiff(m, u) != "" {
			k.Fail("report-fcs0-roundtrip:"+ref.TypeName[kind], "%s with no failure cause marshals to %x, without the FCS, which does not unmarshal to the same report (%v)", ref.TypeName[kind], b, err)
		}
	})
}

// overflow makes a TPDU one which cannot be represented, and returns why.
func overflow(r *mon.Rng, m *ref.TPDU) string {
	alpha, _, _, _ := ref.DCS(m.DCS)
	hasUD := m.Kind == ref.Deliver || m.Kind == ref.Submit || m.Kind == ref.Command || m.PI&4 != 0
	hasAddr := m.Kind == ref.Deliver || m.Kind == ref.Submit || m.Kind == ref.Command || m.Kind == ref.StatusReport
	for {
		switch r.IntN(9) {
		case 0: // UD too long
			if !hasUD {
				continue
			}
			hl := len(ref.UDHBytes(m.UDH))
			room := 255 - hl
			if alpha == ref.A7 {
				room = 255 - (hl*8+6)/7
			}
			n := room + r.Range(1, 3)
			if r.P(1, 4) {
				n = r.Range(256, 1200)
			}
			if alpha == ref.AUCS2 {
				n += n % 2
			}
			m.UD = r.Bytes(n)
			if alpha == ref.A7 {
				for i := range m.UD {
					m.UD[i] &= 0x7f
				}
			}
			return "ud-length"
		case 1: // UDH too long
			if !hasUD {
				continue
			}
			m.FO |= 0x40
			m.UD = nil
			m.UDH = nil
			for ref.UDHLen(m.UDH) <= 255 {
				m.UDH = append(m.UDH, ref.IE{ID: byte(r.Range(0x30, 0xff)), Data: r.Bytes(r.IntN(140))})
			}
			return "udh-length"
		case 2: // one huge IE
			if !hasUD {
				continue
			}
			m.FO |= 0x40
			m.UD = nil
			m.UDH = []ref.IE{{ID: 0x70, Data: r.Bytes(r.Range(254, 600))}}
			return "ied-length"
		case 3: // odd UCS2
			if !hasUD || alpha != ref.AUCS2 {
				continue
			}
			m.UD = r.Bytes(2*r.IntN(50) + 1)
			return "odd-ucs2"
		case 4: // reserved DCS
			if !hasUD || m.Kind == ref.Command || m.Kind >= ref.Command && m.PI&2 == 0 {
				continue
			}
			m.DCS = pick(r, dcsBad)
			return "dcs"
		case 5: // address digit
			if !hasAddr {
				continue
			}
			m.Addr.TOA = 0x91
			d := []byte(genDigits(r, r.Range(1, 20)))
			for {
				x := byte(r.Uint32())
				if !strings.ContainsRune(addrDigits, rune(x)) || x >= 0x80 {
					d[r.IntN(len(d))] = x
					break
				}
			}
			m.Addr.Text = string(d)
			return "address-digit"
		case 6: // address too long
			if !hasAddr {
				continue
			}
			if r.P(1, 2) {
				m.Addr = ref.Addr{TOA: 0x91, Text: genDigits(r, r.Range(256, 700))}
			} else {
				m.Addr = ref.Addr{TOA: 0xd0, Text: strings.Repeat("a", r.Range(146, 400))}
			}
			return "address-length"
		case 7: // alphanumeric address with characters outside the default table
			if !hasAddr {
				continue
			}
			m.Addr = ref.Addr{TOA: 0xd0 | byte(r.IntN(16)), Text: genText(r, kASCII, 0, r.IntN(6)) + pick(r, []string{"€", "{", "^", "中", "😁", "\x1b", "ç", "\f"})}
			return "address-alphabet"
		case 8: // enhanced VP with reserved format
			if m.Kind != ref.Submit {
				continue
			}
			m.VP = ref.VP{Format: ref.VPEnhanced, EFI: byte(r.Range(4, 7)) | byte(r.IntN(32))<<3}
			m.FO = m.FO&^0x18 | 1<<3
			return "vp-format"
		}
	}
}

// p13: what cannot be represented is rejected rather than corrupted.
func p13(c *mon.Ctx) {
	c.Rule("TPDUs, headers, addresses, periods and messages with exactly one constraint of the wire format violated, at and beyond the limit, in otherwise valid TPDUs of every type; the representable neighbour is also marshalled. Non-trivial: distinct (violated constraint, type, value).")
	c.Run("unrepresentable", c.N(40000), func(k *mon.Case) {
		r := k.R()
		m := genTPDU(r, k.I%6)
		if m.Kind == ref.DeliverReport || m.Kind == ref.SubmitReport {
			for m.PI&4 == 0 {
				m = genTPDU(r, k.I%6)
			}
		}
		why := overflow(r, m)
		if b, ok := m.Bytes(); ok {
			panic(fmt.Sprintf("harness: %s is representable as %x", why, b))
		}
		t := toTPDU(m)
		k.Input("constraint", why, "tpdu", *t)
		b, err := t.MarshalBinary()
		k.Seen(why, ref.TypeName[m.Kind], fmt.Sprint(len(m.UD), ref.UDHLen(m.UDH), m.Addr.Text, m.DCS, m.VP.EFI))
		c.Count("rejected."+why, 1)
		if err == nil {
			k.Fail("accepted:"+why, "%s which violates %s marshalled to %x", ref.TypeName[m.Kind], why, b)
		} else if len(b) != 0 {
			k.Fail("output-with-error:"+why, "returned %x with error %v", b, err)
		}
	})
	// limits exactly
	c.Run("limits", c.N(6000), func(k *mon.Case) {
		r := k.R()
		m := genTPDU(r, k.I%6)
		if m.Kind == ref.DeliverReport || m.Kind == ref.SubmitReport || m.Kind == ref.StatusReport {
			m.PI |= 4
		}
		alpha, _, _, _ := ref.DCS(m.DCS)
		hl := len(ref.UDHBytes(m.UDH))
		room := 255 - hl
		if alpha == ref.A7 {
			room = 255 - (hl*8+6)/7
		}
		n := room + r.Range(-2, 2)
		if n < 0 {
			n = 0
		}
		m.UD = bytes.Repeat([]byte{0x41}, n)
		want, ok := m.Bytes()
		t := toTPDU(m)
		k.Input("tpdu", *t)
		got, err := t.MarshalBinary()
		k.Seen("limits", m.Kind, alpha, hl, n)
		if ok != (err == nil) || ok && !bytes.Equal(got, want) {
			k.Fail("limit", "user data of %d with a header of %d octets: got %x, %v; representable is %v", n, hl, got, err, ok)
		}
	})
	// the longest addresses, and those just longer
	c.Run("addresses", c.N(3000), func(k *mon.Case) {
		r := k.R()
		a := ref.Addr{TOA: 0x80 | byte(r.IntN(128)), Text: genDigits(r, r.Range(248, 262))}
		if a.Alnum() {
			a.Text = strings.Repeat("a", r.Range(140, 152))
		}
		want, ok := a.Bytes()
		x := tpdu.Address{TOA: a.TOA, Addr: a.Text}
		k.Input("address", x)
		k.Seen("addresses", a.TOA, a.Text)
		got, err := x.MarshalBinary()
		if ok != (err == nil) || ok && !bytes.Equal(got, want) || !ok && len(got) > 0 {
			k.Fail("address", "address of %d characters marshals to %x, %v; want %x, representable is %v", len(a.Text), got, err, want, ok)
		}
		for _, t := range []tpdu.TPDU{{OA: x}, {Direction: tpdu.MO, FirstOctet: 1, DA: x}, {Direction: tpdu.MO, FirstOctet: 2, DA: x}, {FirstOctet: 2, RA: x}} {
			t.SCTS = stampTime(ref.Stamp{Y: 20, Mo: 2, D: 29})
			t.DT = t.SCTS
			b, err := t.MarshalBinary()
			if ok != (err == nil) || ok && !bytes.Contains(b, want) || !ok && len(b) > 0 {
				k.Fail("address", "%v with an address of %d characters marshals to %x, %v; representable is %v", t.SmsType(), len(a.Text), b, err, ok)
			}
		}
	})
	c.Run("udh", c.N(4000), func(k *mon.Case) {
		r := k.R()
		h := genUDH(r, r.Range(1, 4), 250, true)
		for r.P(2, 3) && ref.UDHLen(h) < 260 {
			h = append(h, ref.IE{ID: byte(r.Uint32()), Data: r.Bytes(r.IntN(60))})
		}
		l := ref.UDHLen(h)
		u := toUDH(h)
		k.Input("udh", u)
		b, err := u.MarshalBinary()
		k.Seen("udh", l)
		if l > 255 {
			if err == nil || len(b) > 0 {
				k.Fail("accepted:udh-length", "UDH of %d octets marshalled to %x, %v", l, b, err)
			}
		} else if err != nil || !bytes.Equal(b, ref.UDHBytes(h)) {
			k.Fail("udh", "UDH of %d octets marshalled to %x, %v, want %x", l, b, err, ref.UDHBytes(h))
		}
	})
	c.Run("smsc", c.N(4000), func(k *mon.Case) {
		r := k.R()
		n := r.IntN(20)
		if r.P(1, 2) {
			n = r.Range(500, 515)
		}
		d := []byte(genDigits(r, n))
		bad := n > 508
		if n > 0 && r.P(1, 3) {
			d[r.IntN(n)] = pick(r, []byte("dFfxX+ \x00\xff"))
			bad = true
		}
		p := pdumode.PDU{SMSC: pduSMSC{Address: tpdu.Address{TOA: 0x91, Addr: string(d)}}, TPDU: []byte{1, 2, 3}}
		k.Input("smsc", string(d))
		b, err := p.MarshalBinary()
		s, serr := p.MarshalHexString()
		k.Seen("smsc", string(d))
		if bad && (err == nil || serr == nil || len(b) > 0 || s != "") {
			k.Fail("accepted:smsc", "SMSC address %q of %d digits marshalled to %x, %v and %q, %v", d, n, b, err, s, serr)
		}
		if !bad && (err != nil || serr != nil) {
			k.Fail("smsc", "SMSC address %q of %d digits rejected: %v %v", d, n, err, serr)
		}
	})
	// types without a wire format, time zones without a representation
	c.Run("type", 64, func(k *mon.Case) {
		t := tpdu.TPDU{FirstOctet: tpdu.FirstOctet(k.I<<2 | 3), Direction: tpdu.Direction(k.I & 1)}
		k.Input("tpdu", t)
		b, err := t.MarshalBinary()
		k.Seen("type", k.I)
		if err == nil || len(b) > 0 {
			k.Fail("accepted:type", "reserved message type marshalled to %x, %v", b, err)
		}
		u, err := unmarshal([]byte{byte(k.I<<2 | 3), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, k.I&1 == 1)
		if err == nil {
			k.Fail("accepted:type", "reserved message type unmarshalled to %v", u)
		}
	})
	c.Run("zone", 240, func(k *mon.Case) {
		q := k.I - 120
		ts := stampTime(ref.Stamp{Y: 20, Mo: 2, D: 29, H: 12, Quarters: q})
		b, err := ts.MarshalBinary()
		t := tpdu.TPDU{FirstOctet: 2, PI: 0, RA: tpdu.Address{TOA: 0x91, Addr: "1"}, SCTS: ts, DT: stampTime(ref.Stamp{Y: 20, Mo: 2, D: 29})}
		tb, terr := t.MarshalBinary()
		t.SCTS, t.DT = t.DT, t.SCTS
		ub, uerr := t.MarshalBinary()
		k.Input("quarters", q)
		k.Seen("zone", q)
		ok := q >= -79 && q <= 79
		if ok != (err == nil) || ok != (terr == nil) || ok != (uerr == nil) {
			k.Fail("zone", "zone of %d quarters: %x %v, in a TPDU %x %v, %x %v", q, b, err, tb, terr, ub, uerr)
		}
		if !ok && len(b)+len(tb)+len(ub) > 0 {
			k.Fail("output-with-error:zone", "returned octets with an error")
		}
		// wherever there is a timestamp
		var vp tpdu.ValidityPeriod
		vp.SetAbsolute(ts)
		sub := tpdu.TPDU{Direction: tpdu.MO, FirstOctet: 1, DA: tpdu.Address{TOA: 0x91, Addr: "1"}}
		sub.SetVP(vp)
		for _, t := range []tpdu.TPDU{
			{OA: tpdu.Address{TOA: 0x91, Addr: "1"}, SCTS: ts},
			{FirstOctet: 1, FCS: 1, SCTS: ts},
			{FirstOctet: 1, FCS: 1, SCTS: ts, PI: 7, UD: []byte("abc")},
			sub,
		} {
			b, err := t.MarshalBinary()
			k.Seen("zone", q, t.FirstOctet)
			if ok != (err == nil) || !ok && len(b) > 0 {
				k.Fail("zone:"+t.SmsType().String(), "zone of %d quarters: %x, %v", q, b, err)
			}
		}
		if b, err := vp.MarshalBinary(); ok != (err == nil) || !ok && len(b) > 0 {
			k.Fail("zone:vp", "zone of %d quarters: %x, %v", q, b, err)
		}
	})
	// years which two digits cannot hold
	c.Run("year", 400, func(k *mon.Case) {
		y := 1800 + k.I
		if y >= 1970 && y < 2070 {
			c.Trivial()
			return
		}
		ts := tpdu.Timestamp{Time: time.Date(y, 6, 15, 12, 0, 0, 0, time.UTC)}
		b, err := ts.MarshalBinary()
		k.Input("year", y)
		k.Seen("year", y)
		if err == nil {
			k.Fail("accepted:timestamp-year", "timestamp in %d marshalled to %x", y, b)
		}
	})
	// headers which leave no room for the message
	c.Run("room", c.N(3000), func(k *mon.Case) {
		r := k.R()
		alpha := r.IntN(3)
		typ := pick(r, []sms.EncoderOption{sms.AsSubmit, sms.AsDeliver})
		opts := []sms.EncoderOption{typ}
		msg := strings.Repeat("a", r.Range(1, 40))
		kind := alpha
		switch alpha {
		case ref.A8:
			opts = append(opts, sms.As8Bit)
		case ref.AUCS2:
			msg = strings.Repeat("中", r.Range(1, 40))
		}
		l := r.Range(100, 260)
		if r.P(3, 4) {
			l = r.Range(125, 142)
		}
		var h []ref.IE
		for left := l; left > 1; {
			n := left - 2
			if n > 8 && r.P(1, 2) {
				n = r.IntN(n - 3)
			}
			h = append(h, ref.IE{ID: byte(r.Range(0x30, 0x90)), Data: r.Bytes(n)})
			left -= n + 2
		}
		opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(toUDH(h))))
		n := len(msg)
		if alpha == ref.AUCS2 {
			n = len(msg) / 3 * 2
		}
		l = ref.UDHLen(h)
		single := n <= ref.BlockSize(ref.Submit, false, kind, l)
		per := ref.BlockSize(ref.Submit, false, kind, l+5)
		if kind == ref.AUCS2 {
			per = per / 2 * 2
		}
		k.Input("alpha", alpha, "header", l, "length", n)
		k.Seen("room", alpha, l, n)
		pdus, err := sms.Encode([]byte(msg), opts...)
		if !single && per < 1 {
			if err == nil || len(pdus) > 0 {
				k.Fail("accepted:no-room", "%d of user data with a header of %d octets encoded to %d TPDUs, %v", n, l, len(pdus), err)
			}
			c.Count("no_room", 1)
			return
		}
		if err != nil || len(pdus) == 0 {
			k.Fail("room", "%d of user data with a header of %d octets gave %d TPDUs, %v", n, l, len(pdus), err)
		}
	})
	c.Exhaustive("all reserved message type first octets; all zones within 30 hours")
	// messages which cannot be identified as a concatenated message
	c.Run("message", c.N(60), func(k *mon.Case) {
		r := k.R()
		var msg string
		per := 0
		var opts []sms.EncoderOption
		n := pick(r, []int{254, 255, 256, 257, 300, 511, 512, 600})
		switch r.IntN(3) {
		case 0:
			per = 153
			msg = strings.Repeat("a", per*(n-1)+r.Range(1, per))
		case 1:
			per = 67
			msg = strings.Repeat("中", per*(n-1)+r.Range(1, per))
		case 2:
			per = 134
			opts = append(opts, sms.As8Bit)
			msg = strings.Repeat("x", per*(n-1)+r.Range(1, per))
		}
		k.Input("segments", n, "per", per)
		pdus, err := sms.Encode([]byte(msg), opts...)
		k.Seen("message", n, per, len(msg))
		// and divided directly
		ud := bytes.Repeat([]byte{0, 'a'}, 140)[:140]
		direct := tpdu.TPDU{FirstOctet: 1, Direction: tpdu.MO, DCS: 4}
		if p := direct.Segment(bytes.Repeat(ud[:134], n)); n > 255 && len(p) > 0 || n <= 255 && len(p) != n {
			k.Fail("accepted:direct-segments", "user data for %d segments was divided into %d", n, len(p))
		}
		if n > 255 {
			if err == nil || len(pdus) > 0 {
				k.Fail("accepted:segments", "message of %d segments encoded to %d TPDUs, %v", n, len(pdus), err)
			}
			return
		}
		if err != nil || len(pdus) != n {
			k.Fail("segments", "message of %d segments encoded to %d TPDUs, %v", n, len(pdus), err)
			return
		}
		for i := range pdus {
			s, q, _, ok := pdus[i].ConcatInfo()
			if !ok || s != n || q != i+1 {
				k.Fail("segments", "segment %d of %d is labelled %d of %d", i+1, n, q, s)
				return
			}
		}
	})
	// a DCS which cannot carry the message
	c.Run("dcs", c.N(3000), func(k *mon.Case) {
		r := k.R()
		d := tpdu.DCS(k.I)
		text := genText(r, pick(r, []int{kDefault, kBMP, kAstral, kLock}), r.Range(1, 13), r.Range(1, 200))
		opts := []sms.EncoderOption{sms.WithTemplateOption(d)}
		alpha, _, _, dok := ref.DCS(byte(d))
		if dok && alpha != ref.A7 {
			c.Trivial()
			return // explicit alphabet
		}
		sel := ref.Select(text, nil, nil)
		group := byte(d) >> 4
		conflict := !dok || sel.Alpha == ref.AUCS2 && group >= 0xc
		k.Input("dcs", byte(d), "text", text)
		pdus, err := sms.Encode([]byte(text), opts...)
		k.Seen("dcs", byte(d), sel.Alpha)
		if conflict {
			c.Count("dcs-conflicts", 1)
			if err == nil || len(pdus) > 0 {
				k.Fail("accepted:dcs", "DCS %02x cannot indicate alphabet %d, but encoded %d TPDUs, %v", byte(d), sel.Alpha, len(pdus), err)
			}
			return
		}
		if err != nil {
			k.Fail("dcs", "DCS %02x can indicate alphabet %d, but %v", byte(d), sel.Alpha, err)
			return
		}
		for _, p := range pdus {
			if a, err := p.Alphabet(); err != nil || int(a) != sel.Alpha {
				k.Fail("dcs", "encoded with alphabet %d but DCS %02x indicates %d", sel.Alpha, byte(p.DCS), a)
			}
		}
	})
}
