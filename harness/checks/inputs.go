package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	Reg["P27"] = p27
}

// snap renders everything reachable from the values, including the spare
// capacity of slices.
func snap(vs ...any) string {
	var sb strings.Builder
	for _, v := range vs {
		snapValue(&sb, reflect.ValueOf(v), 0)
		sb.WriteByte('\n')
	}
	return sb.String()
}

func snapValue(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		snapValue(sb, v.Elem(), depth+1)
	case reflect.Interface:
		snapValue(sb, v.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "[len %d:", v.Len())
		full := v.Slice(0, v.Cap())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x", full.Bytes())
		} else {
			for i := 0; i < full.Len(); i++ {
				snapValue(sb, full.Index(i), depth+1)
				sb.WriteByte(' ')
			}
		}
		sb.WriteByte(']')
	case reflect.Struct:
		if v.Type().PkgPath() == "time" {
			fmt.Fprintf(sb, "%v", v)
			return
		}
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			snapValue(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

// spare copies a slice into one with spare capacity filled with markers.
func spare[T any](s []T, mark T, n int) []T {
	out := make([]T, len(s)+n)
	copy(out, s)
	for i := len(s); i < len(out); i++ {
		out[i] = mark
	}
	return out[:len(s)]
}

// spareTPDU gives the slices of a TPDU spare capacity.
func spareTPDU(r *mon.Rng, t *tpdu.TPDU) {
	t.UD = spare(t.UD, 0xa5, r.IntN(9))
	var h tpdu.UserDataHeader
	for _, ie := range t.UDH {
		ie.Data = spare(ie.Data, 0x5a, r.IntN(4))
		h = append(h, ie)
	}
	if len(h) > 0 {
		t.UDH = spare(h, tpdu.InformationElement{ID: 0x7f, Data: []byte{1, 2, 3}}, r.IntN(5))
	}
}

// p27: inputs are not modified.
func p27(c *mon.Ctx) {
	c.Rule("every exported operation which takes or is a method of something referring to memory, on random arguments whose slices have marked spare capacity, with a deep comparison of the arguments before and after. Non-trivial: distinct (operation, arguments).")
	// frozen runs the operation and checks that its arguments are unchanged
	frozen := func(k *mon.Case, op string, f func(), args ...any) {
		before := snap(args...)
		k.Seen(op, before)
		f()
		if after := snap(args...); after != before {
			k.Fail("modified:"+op, "%s modified its input: before %s after %s", op, before, after)
		}
	}
	c.Run("encode", c.N(3000), func(k *mon.Case) {
		r := k.R()
		e := genEnc(r)
		if len(e.msg) > 500 && r.P(19, 20) {
			e.msg = e.msg[:r.Range(1, 500)]
		}
		msg := spare(e.msg, 0xa5, r.IntN(20))
		t := cloneTPDU(&e.want)
		spareTPDU(r, t)
		udh := toUDH(genUDH(r, r.Range(1, 3), 40, false))
		if len(udh) > 0 {
			udh = spare(udh, tpdu.InformationElement{ID: 0x7e}, 3)
		}
		some := genNLIs(r)
		if len(some) > 8 {
			some = some[:8] // every one of the operations tries every pair
		}
		nlis := spare(some, 77, 3)
		call := spare(append(append([]sms.EncoderOption{}, e.call...), sms.WithCharset(nlis...), sms.WithLockingCharset(nlis...)), sms.EncoderOption(sms.AsSubmit), 3)
		ctor := append(append([]sms.EncoderOption{}, e.ctor...), sms.WithTemplate(*t), sms.WithShiftCharset(nlis...), sms.WithLockingCharset(nlis...))
		if r.P(1, 3) {
			ctor = append(ctor, sms.WithTemplateOption(tpdu.WithUDH(udh)))
		}
		ctor = spare(ctor, sms.EncoderOption(sms.AsDeliver), 3)
		k.Input("desc", strings.Join(e.desc, " "), "msg", msg)
		var enc *sms.Encoder
		frozen(k, "NewEncoder", func() { enc = sms.NewEncoder(ctor...) }, ctor, *t, udh, nlis)
		for i := 0; i < 2; i++ {
			frozen(k, "Encoder.Encode", func() { enc.Encode(msg, call...) }, msg, ctor, call, *t, udh, nlis)
		}
		frozen(k, "Encode", func() { sms.Encode(msg, ctor...) }, msg, ctor, *t, udh, nlis)
		ti := *t
		frozen(k, "Segment", func() { ti.Segment(msg) }, &ti, msg)
		frozen(k, "Segment16", func() { ti.Segment(msg, tpdu.With16BitConcatRef, tpdu.WithMR(&sms.Counter{})) }, &ti, msg)
		eo := spare([]tpdu.UDEncodeOption{tpdu.WithCharset(nlis...), tpdu.WithAllCharsets, tpdu.WithLockingCharset(nlis...), tpdu.WithShiftCharset(nlis...)}, tpdu.UDEncodeOption(tpdu.WithAllCharsets), 3)
		frozen(k, "EncodeUserData", func() { tpdu.EncodeUserData(msg, eo...) }, msg, eo, nlis)
		to := spare([]tpdu.Option{tpdu.SmsSubmit, tpdu.WithUDH(udh)}, tpdu.Option(tpdu.MO), 3)
		frozen(k, "New", func() { tpdu.New(to...); tpdu.NewDeliver(to...); tpdu.NewSubmit(to...) }, to, udh)
	})
	c.Run("decode", c.N(3000), func(k *mon.Case) {
		r := k.R()
		var segs []*tpdu.TPDU
		for n := r.Range(1, 4); n > 0; n-- {
			t := toTPDU(genTPDU(r, pick(r, []int{ref.Deliver, ref.Submit})))
			if r.P(1, 2) {
				t.DCS = 8
				t.UD = ref.EncodeUCS2(genText(r, kAstral, 0, r.Range(0, 20)))
				if len(t.UD) > 2 && r.P(1, 2) {
					t.UD = t.UD[:len(t.UD)-2]
				}
			}
			if r.P(1, 3) {
				t.UDH = append(t.UDH, tpdu.InformationElement{ID: 25, Data: []byte{1}}, tpdu.InformationElement{ID: 24, Data: []byte{13}})
			}
			spareTPDU(r, t)
			segs = append(segs, t)
		}
		segs = spare(segs, &tpdu.TPDU{MR: 99}, 3)
		nlis := spare(genNLIs(r), 77, 3)
		do := spare([]sms.DecodeOption{sms.WithCharset(nlis...), sms.WithLockingCharset(nlis...), sms.WithShiftCharset(nlis...)}, sms.DecodeOption(sms.WithDefaultCharset), 2)
		frozen(k, "Decode", func() { sms.Decode(segs) }, segs)
		frozen(k, "Decode.options", func() { sms.Decode(segs, do...) }, segs, do, nlis)
		frozen(k, "IsCompleteMessage", func() { sms.IsCompleteMessage(segs) }, segs)
		coll := sms.NewCollector()
		defer coll.Close()
		for _, t := range segs {
			a, _ := t.Alphabet()
			uo := spare([]tpdu.UDDecodeOption{tpdu.WithCharset(nlis...), tpdu.WithAllCharsets, tpdu.WithLockingCharset(nlis...), tpdu.WithShiftCharset(nlis...)}, tpdu.UDDecodeOption(tpdu.WithAllCharsets), 2)
			frozen(k, "DecodeUserData", func() { tpdu.DecodeUserData(t.UD, t.UDH, a, uo...) }, t, uo, nlis)
			frozen(k, "Collect", func() { coll.Collect(*t); coll.Collect(*t); coll.Pipes() }, t)
			frozen(k, "ConcatInfo", func() { t.ConcatInfo(); t.IsSingleSegment(); t.UDH.IE(0); t.UDH.IEs(8) }, t)
			_ = fmt.Sprint(t.DCS, t.PI, t.SmsType())
		}
	})
	c.Run("binary", c.N(4000), func(k *mon.Case) {
		r := k.R()
		kind := r.IntN(6)
		t := toTPDU(genTPDU(r, kind))
		spareTPDU(r, t)
		var b []byte
		if r.P(1, 6) { // not septets
			x := *t
			x.UD = spare(r.Bytes(r.IntN(100)), 0xa5, 9)
			frozen(k, "TPDU.MarshalBinary", func() { x.MarshalBinary(); x.Segment(x.UD) }, &x)
		}
		frozen(k, "TPDU.MarshalBinary", func() { b, _ = t.MarshalBinary() }, t)
		frozen(k, "UDBlockSize", func() { t.UDBlockSize(); t.UDHL(); t.UDHI(); t.MTI() }, t)
		src := spare(b, 0xa5, 9)
		if r.P(1, 4) {
			src = spare(r.Bytes(r.IntN(60)), 0xa5, 9)
		}
		frozen(k, "Unmarshal", func() { sms.Unmarshal(src); sms.Unmarshal(src, sms.AsMO) }, src)
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: genNumber(r)}}, TPDU: src}
		var pb []byte
		var ph string
		frozen(k, "PDU.MarshalBinary", func() { pb, _ = p.MarshalBinary() }, &p)
		frozen(k, "PDU.MarshalHexString", func() { ph, _ = p.MarshalHexString() }, &p)
		pb = spare(pb, 0xa5, 5)
		frozen(k, "pdumode.UnmarshalBinary", func() {
			pdumode.UnmarshalBinary(pb)
			pdumode.UnmarshalHexString(ph)
			var a pdumode.SMSCAddress
			a.UnmarshalBinary(pb)
		}, pb, ph)
		frozen(k, "UserDataHeader", func() { t.UDH.MarshalBinary() }, t)
		ub := spare(ref.UDHBytes(modelUDH(t.UDH)), 0xa5, 5)
		frozen(k, "UserDataHeader.UnmarshalBinary", func() { var u tpdu.UserDataHeader; u.UnmarshalBinary(ub) }, ub)
		frozen(k, "Address.MarshalBinary", func() { t.OA.MarshalBinary(); t.DA.MarshalBinary(); t.OA.Number() }, t)
		ts := spare(genStamp(r).Bytes(), 0xa5, 5)
		frozen(k, "fields.UnmarshalBinary", func() {
			var s tpdu.Timestamp
			s.UnmarshalBinary(ts)
			var a tpdu.Address
			a.UnmarshalBinary(ts)
			a.UnmarshalBinary(src)
			var v tpdu.ValidityPeriod
			for f := tpdu.VpfNotPresent; f <= tpdu.VpfAbsolute; f++ {
				v.UnmarshalBinary(ts, f)
			}
		}, ts, src)
		frozen(k, "fields.MarshalBinary", func() { t.SCTS.MarshalBinary(); t.VP.MarshalBinary() }, t)
		q := spare(r.Bytes(r.IntN(30)), 0xa5, 5)
		frozen(k, "7bit", func() {
			f := r.IntN(7)
			gsm7.Unpack7Bit(q, f)
			gsm7.Unpack7BitUSSD(q, f)
		}, q)
		s7 := spare(q, 0xa5, 5)
		for i := range s7 {
			s7[i] &= 0x7f
		}
		if r.P(1, 2) && len(s7) > 0 {
			s7[len(s7)-1] = 0x0d
		}
		frozen(k, "pack", func() {
			f := r.IntN(7)
			gsm7.Pack7Bit(s7, f)
			gsm7.Pack7BitUSSD(s7, f)
			gsm7.Decode(s7)
			gsm7.Decode(s7, gsm7.WithCharset(r.IntN(14)), gsm7.WithExtCharset(r.IntN(14)), gsm7.Strict)
		}, s7)
		// octets which are not septets
		frozen(k, "pack8", func() {
			for f := 0; f < 7; f++ {
				gsm7.Pack7Bit(q, f)
				gsm7.Pack7BitUSSD(q, f)
			}
			gsm7.Decode(q)
		}, q)
		tx := spare([]byte(genText(r, r.IntN(kKinds), r.IntN(14), r.IntN(30))), 0xa5, 5)
		frozen(k, "gsm7.Encode", func() {
			gsm7.Encode(tx)
			gsm7.Encode(tx, gsm7.WithCharset(r.IntN(14)), gsm7.WithExtCharset(r.IntN(14)))
		}, tx)
		rs := spare([]rune(string(tx)), 'x', 4)
		frozen(k, "ucs2.Encode", func() { ucs2.Encode(rs) }, rs)
		frozen(k, "ucs2.Decode", func() { ucs2.Decode(q) }, q)
		dg := spare([]byte(genDigits(r, r.IntN(12))), 0xa5, 5)
		frozen(k, "semioctet", func() { semioctet.Encode(dg); semioctet.Decode(make([]byte, 9), q) }, dg, q)
		// errors do not share memory which is later written
		if _, err := ucs2.Decode([]byte{0xd8, 0}); err != nil {
			frozen(k, "error", func() { _ = err.Error() }, err)
		}
	})
	// the character set tables are shared by all, so are not changed by use
	c.Run("tables", 14, func(k *mon.Case) {
		r := k.R()
		n := k.I
		table := func() string {
			return fmt.Sprint(charset.NewDecoder(n), charset.NewExtDecoder(n), charset.NewEncoder(n), charset.NewExtEncoder(n))
		}
		before := table()
		for i := 0; i < 100; i++ {
			text := []byte(genText(r, r.IntN(kKinds), n, 30))
			ud, udh, a := tpdu.EncodeUserData(text, tpdu.WithCharset(n))
			tpdu.DecodeUserData(ud, udh, a, tpdu.WithAllCharsets)
			gsm7.Decode(text, gsm7.WithCharset(n), gsm7.WithoutExtCharset)
			d := gsm7.NewDecoder(gsm7.WithoutExtCharset).WithCharset(nil).WithExtCharset(nil).Strict()
			d.Decode(text)
		}
		k.Seen("tables", n)
		if after := table(); after != before {
			k.Fail("tables", "the tables for %d changed from %s to %s", n, before, after)
		}
	})
}
