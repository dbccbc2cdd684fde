package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"

	"verifharness/mon"
	"verifharness/ref"
)

// udOpt is a character set option for both encoding and decoding user data.
type udOpt interface {
	tpdu.UDEncodeOption
	tpdu.UDDecodeOption
}

// genUDOpts generates character set options and their meaning.
func genUDOpts(r *mon.Rng, n int) (enc []tpdu.UDEncodeOption, dec []tpdu.UDDecodeOption, sdec []sms.DecodeOption, locking, shift []int, desc string) {
	for i := 0; i < n; i++ {
		nl := genNLIs(r)
		if r.P(1, 8) {
			nl = append(nl, pick(r, []int{0, 14, 15, 99, 255}))
		}
		var o udOpt
		switch r.IntN(4) {
		case 0:
			if r.P(1, 2) {
				o = tpdu.WithAllCharsets
				nl = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
				locking, shift = append(locking, nl...), append(shift, nl...)
				desc += " all"
				if all, ok := any(sms.WithAllCharsets).(sms.DecodeOption); ok {
					sdec = append(sdec, all)
				}
				break
			}
			fallthrough
		case 1:
			o = tpdu.WithCharset(nl...)
			sdec = append(sdec, sms.WithCharset(nl...))
			locking, shift = append(locking, nl...), append(shift, nl...)
			desc += fmt.Sprint(" charset", nl)
		case 2:
			o = tpdu.WithLockingCharset(nl...)
			sdec = append(sdec, sms.WithLockingCharset(nl...))
			locking = append(locking, nl...)
			desc += fmt.Sprint(" locking", nl)
		default:
			o = tpdu.WithShiftCharset(nl...)
			sdec = append(sdec, sms.WithShiftCharset(nl...))
			shift = append(shift, nl...)
			desc += fmt.Sprint(" shift", nl)
		}
		enc, dec = append(enc, o), append(dec, o)
	}
	return
}

func known(n []int) []int {
	var out []int
	for _, x := range n {
		if x > 0 && x < 14 {
			out = append(out, x)
		}
	}
	return out
}

// refDecodeUD is the text of user data given the languages permitted.
func refDecodeUD(ud []byte, h []ref.IE, alpha int, locking, shift []int) (string, bool) {
	switch alpha {
	case ref.A8:
		return string(ud), true
	case ref.AUCS2:
		t, d, odd := ref.DecodeUCS2(ud)
		return string(t), len(d) == 0 && !odd
	}
	lang := func(id byte, allowed []int) int {
		for i := len(h) - 1; i >= 0; i-- {
			if h[i].ID != id {
				continue
			}
			if len(h[i].Data) > 0 {
				for _, n := range allowed {
					if n == int(h[i].Data[0]) {
						return n
					}
				}
			}
			break
		}
		return 0
	}
	t, _, ok := ref.DecodeGSM(ud, ref.Lock(lang(25, locking)), ref.Shift(lang(24, shift)), false)
	return t, ok
}

// p22: alphabet and language selection.
func p22(c *mon.Ctx) {
	c.Rule("messages of every alphabet and language (including characters of several languages) against every kind of character set option, in encoding and in decoding, including headers naming languages which are unknown, repeated or not permitted. Non-trivial: distinct (options, text or septets).")
	history(c, histUD()...)
	lang := func(h []ref.IE) []ref.IE {
		var out []ref.IE
		for _, e := range h {
			if e.ID == 24 || e.ID == 25 {
				out = append(out, e)
			}
		}
		return out
	}
	c.Run("encoder", c.N(4000), func(k *mon.Case) {
		r := k.R()
		e := genEnc(r)
		p := e.plan()
		e.record(k)
		pdus, err := e.encode()
		if p.Conflict {
			if len(e.msg) > 0 && (err == nil || pdus != nil) {
				k.Fail("conflict", "DCS %02x cannot carry the message, but encoded: %v", byte(e.want.DCS), pdus)
			}
			return
		}
		if err != nil {
			k.Fail("encode", "does not encode: %v", err)
			return
		}
		k.Seen(strings.Join(e.desc, " "), e.msg)
		c.Count(fmt.Sprintf("alphabet.%d", p.Alpha), 1)
		if len(p.Lang) > 0 {
			c.Count("language", 1)
		}
		for i := range pdus {
			g := &pdus[i]
			if byte(g.DCS) != p.DCS {
				k.Fail("dcs", "segment %d has DCS %02x, want %02x", i, byte(g.DCS), p.DCS)
			}
			if d := udhDiff(p.Lang, toUDH(lang(modelUDH(g.UDH)))); d != "" {
				k.Fail("language", "segment %d language: %s", i, d)
			}
		}
		if ud := joinUD(pdus); !bytes.Equal(ud, p.UD) {
			k.Fail("ud", "encoded as %x, want %x", ud, p.UD)
		}
	})
	c.Run("userdata", c.N(8000), func(k *mon.Case) {
		r := k.R()
		enc, dec, _, locking, shift, desc := genUDOpts(r, r.IntN(4))
		nli := r.IntN(14)
		if l := known(append(append([]int{}, locking...), shift...)); len(l) > 0 && r.P(3, 4) {
			nli = pick(r, l)
		}
		text := genText(r, r.IntN(kKinds), nli, r.Range(1, 40))
		k.Input("options", desc, "text", text)
		k.Seen("ud", desc, text)
		s := ref.Select(text, known(locking), known(shift))
		ud, udh, alpha := tpdu.EncodeUserData([]byte(text), enc...)
		var want []ref.IE
		if s.Lock != 0 {
			want = append(want, ref.IE{ID: 25, Data: []byte{byte(s.Lock)}})
		}
		if s.Shift != 0 {
			want = append(want, ref.IE{ID: 24, Data: []byte{byte(s.Shift)}})
		}
		if int(alpha) != s.Alpha || !bytes.Equal(ud, s.UD) {
			k.Fail("select", "encoded with alphabet %d as %x, want %d as %x", alpha, []byte(ud), s.Alpha, s.UD)
			return
		}
		if d := udhDiff(want, udh); d != "" {
			k.Fail("select", "header: %s", d)
			return
		}
		got, err := tpdu.DecodeUserData(ud, udh, alpha, dec...)
		if t := string([]rune(text)); err != nil || string(got) != t {
			k.Fail("inverse", "decodes to %q, %v, want %q", got, err, t)
		}
	})
	// each single language and kind of text
	c.Run("languages", 13*3*kInvalid*c.N(4), func(k *mon.Case) {
		r := k.R()
		nli := k.I%13 + 1
		opt := k.I / 13 % 3
		kind := k.I / 39 % kInvalid
		text := genText(r, kind, nli, r.Range(1, 12))
		var locking, shift []int
		var o tpdu.UDEncodeOption
		switch opt {
		case 0:
			o = tpdu.WithLockingCharset(nli)
			locking = []int{nli}
		case 1:
			o = tpdu.WithShiftCharset(nli)
			shift = []int{nli}
		default:
			o = tpdu.WithCharset(nli)
			locking, shift = []int{nli}, []int{nli}
		}
		k.Input("nli", nli, "opt", opt, "text", text)
		k.Seen("lang", nli, opt, text)
		s := ref.Select(text, locking, shift)
		ud, _, alpha := tpdu.EncodeUserData([]byte(text), o)
		if int(alpha) != s.Alpha || !bytes.Equal(ud, s.UD) {
			k.Fail("select", "encoded with alphabet %d as %x, want %d as %x", alpha, []byte(ud), s.Alpha, s.UD)
		}
	})
	// every combination of the languages named and permitted, over all septets
	// and all escaped septets
	var every []byte
	for i := 0; i < 128; i++ {
		if i != ref.Esc {
			every = append(every, byte(i))
		}
		every = append(every, ref.Esc, byte(i))
	}
	// the identifiers of the language elements, by 23.040 9.2.3.24
	c.Run("identifiers", 26, func(k *mon.Case) {
		nli, locking := k.I/2+1, k.I%2 == 1
		k.Seen("iei", nli, locking)
		std, used, what, set := byte(0x24), byte(24), "shift", []int{nli}
		enc, dec := tpdu.UDEncodeOption(tpdu.WithShiftCharset(nli)), tpdu.UDDecodeOption(tpdu.WithShiftCharset(nli))
		text := string(shiftRune[nli])
		var lo, so []int
		if locking {
			std, used, what = 0x25, 25, "locking"
			enc, dec = tpdu.WithLockingCharset(nli), tpdu.WithLockingCharset(nli)
			text = string(lockRunes[nli])
			lo = set
		} else {
			so = set
		}
		k.Input("nli", nli, "table", what)
		h := []ref.IE{{ID: used, Data: []byte{byte(nli)}}}
		want, ok := refDecodeUD(every[:len(every):len(every)], h, ref.A7, lo, so)
		got, err := tpdu.DecodeUserData(every, tpdu.UserDataHeader{{ID: std, Data: []byte{byte(nli)}}}, tpdu.Alpha7Bit, dec)
		if ok && (err != nil || string(got) != want) {
			plain, _ := refDecodeUD(every, nil, ref.A7, nil, nil)
			if string(got) != plain {
				k.Fail("decode-ud", "with element %02x decodes to %q, %v, want %q or %q", std, got, err, want, plain)
			} else if want != plain {
				k.Fail("language-iei:decode-"+what, "element %02x naming language %d is ignored", std, nli)
			}
		}
		_, udh, _ := tpdu.EncodeUserData([]byte(text), enc)
		for _, e := range udh {
			if e.ID == used {
				k.Fail("language-iei:encode-"+what, "language %d is named by element %02x, which is not that of a language", nli, e.ID)
			}
		}
	})
	others := func(n int) []int {
		var out []int
		for i := 1; i < 14; i++ {
			if i != n {
				out = append(out, i)
			}
		}
		return out
	}
	const named = 17 // none, 0..15
	c.Run("decode-grid", named*named*9, func(k *mon.Case) {
		ln, sn := k.I%named-1, k.I/named%named-1
		lp, sp := k.I/(named*named)%3, k.I/(named*named)/3
		var h []ref.IE
		perm := func(id byte, n, p int) []int {
			if n >= 0 {
				h = append(h, ref.IE{ID: id, Data: []byte{byte(n)}})
			}
			switch p {
			case 0:
				return nil
			case 1:
				return []int{n}
			}
			return others(n)
		}
		locking := perm(25, ln, lp)
		shift := perm(24, sn, sp)
		if k.I%2 == 0 && len(h) == 2 {
			h[0], h[1] = h[1], h[0]
		}
		k.Input("udh", h, "locking", locking, "shift", shift)
		k.Seen("grid", ln, sn, lp, sp)
		var dec []tpdu.UDDecodeOption
		var sdec []sms.DecodeOption
		if k.I%3 == 0 && fmt.Sprint(locking) == fmt.Sprint(shift) {
			dec = append(dec, tpdu.WithCharset(locking...))
			sdec = append(sdec, sms.WithCharset(locking...))
		} else {
			dec = append(dec, tpdu.WithLockingCharset(locking...), tpdu.WithShiftCharset(shift...))
			sdec = append(sdec, sms.WithLockingCharset(locking...), sms.WithShiftCharset(shift...))
		}
		want, ok := refDecodeUD(every, h, ref.A7, known(locking), known(shift))
		got, err := tpdu.DecodeUserData(every, toUDH(h), tpdu.Alpha7Bit, dec...)
		if ok && (err != nil || string(got) != want) {
			k.Fail("decode-ud", "decodes to %q, %v, want %q", got, err, want)
		}
		t := &tpdu.TPDU{UDH: toUDH(h), UD: every}
		got, err = sms.Decode([]*tpdu.TPDU{t}, sdec...)
		if ok && (err != nil || string(got) != want) {
			k.Fail("decode", "decodes to %q, %v, want %q", got, err, want)
		}
	})
	// every locking with every shift language, permitted among others in
	// either order, with text of some or all of them
	c.Run("encode-grid", 14*14*c.N(16), func(k *mon.Case) {
		initRunes()
		r := k.R()
		ln, sn := k.I%14, k.I/14%14
		list := func(n int) []int {
			var out []int
			for i := r.IntN(3); i > 0; i-- {
				out = append(out, r.IntN(15))
			}
			if r.P(1, 10) { // long and repetitive
				x := r.IntN(15)
				for i := r.Range(1, 40); i > 0; i-- {
					out = append(out, x)
				}
			}
			if n > 0 {
				i := r.IntN(len(out) + 1)
				out = append(out[:i], append([]int{n}, out[i:]...)...)
			}
			return out
		}
		locking, shift := list(ln), list(sn)
		sets := [][]rune{lockRunes[0], newRunes[ln], lockRunes[ln], shiftRune[sn], shiftRune[0]}
		mask := r.IntN(32)
		if r.P(1, 2) {
			mask = 8 | 2 | r.IntN(8)
		}
		var text []rune
		for i := r.Range(1, 12); i > 0; i-- {
			for j, set := range sets {
				if mask>>j&1 == 1 && len(set) > 0 {
					text = append(text, pick(r, set))
				}
			}
		}
		k.Input("locking", locking, "shift", shift, "text", string(text))
		k.Seen("egrid", locking, shift, string(text))
		s := ref.Select(string(text), known(locking), known(shift))
		var want []ref.IE
		if s.Lock != 0 {
			want = append(want, ref.IE{ID: 25, Data: []byte{byte(s.Lock)}})
		}
		if s.Shift != 0 {
			want = append(want, ref.IE{ID: 24, Data: []byte{byte(s.Shift)}})
		}
		lo, so := tpdu.WithLockingCharset(locking...), tpdu.WithShiftCharset(shift...)
		ud, udh, alpha := tpdu.EncodeUserData([]byte(string(text)), so, lo)
		if int(alpha) != s.Alpha || !bytes.Equal(ud, s.UD) {
			k.Fail("select", "encoded with alphabet %d as %x, want %d as %x", alpha, []byte(ud), s.Alpha, s.UD)
			return
		}
		if d := udhDiff(want, udh); d != "" {
			k.Fail("select", "header: %s", d)
			return
		}
		if s.Lock != 0 && s.Shift != 0 {
			c.Count("locking-and-shift", 1)
		}
		got, err := tpdu.DecodeUserData(ud, udh, alpha, lo, so)
		if err != nil || string(got) != string(text) {
			k.Fail("inverse", "decodes to %q, %v, want %q", got, err, string(text))
		}
	})
	c.Run("decode", c.N(6000), func(k *mon.Case) {
		r := k.R()
		if _, ok := any(sms.WithAllCharsets).(sms.DecodeOption); !ok {
			k.Fail("all-charsets-option", "WithAllCharsets, which is documented to apply to decoding, is not accepted by Decode")
			return
		}
		_, dec, sdec, locking, shift, desc := genUDOpts(r, r.IntN(3))
		var segs []*tpdu.TPDU
		var want strings.Builder
		var wantS strings.Builder
		ok := true
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			var h []ref.IE
			for j := r.IntN(4); j > 0; j-- {
				v := byte(r.IntN(16))
				if len(locking) > 0 && r.P(1, 2) {
					v = byte(pick(r, locking))
				}
				if r.P(1, 10) {
					v = byte(r.Uint32())
				}
				d := []byte{v}
				if r.P(1, 8) {
					d = r.Bytes(r.IntN(3))
				}
				h = append(h, ref.IE{ID: pick(r, []byte{24, 25, 24, 25, 8, 0, 0x70}), Data: d})
			}
			alpha := pick(r, []int{ref.A7, ref.A7, ref.A7, ref.A8, ref.AUCS2})
			ud := r.Bytes(r.IntN(40))
			switch alpha {
			case ref.A7:
				for i := range ud {
					ud[i] &= 0x7f
					if r.P(1, 5) {
						ud[i] = ref.Esc
					}
				}
			case ref.AUCS2:
				ud = ref.EncodeUCS2(genText(r, kAstral, 0, r.IntN(20)))
			}
			dcs := pick(r, dcsFor[alpha])
			if alpha == ref.A7 && r.P(1, 8) {
				dcs = pick(r, dcsBad) // assumed to be the default
			}
			t := &tpdu.TPDU{DCS: tpdu.DCS(dcs), UDH: toUDH(h), UD: ud}
			segs = append(segs, t)
			k.Input("dcs", dcs, "udh", h, "ud", ud)
			w, o := refDecodeUD(ud, h, alpha, known(locking), known(shift))
			ok = ok && o
			want.WriteString(w)
			got, err := tpdu.DecodeUserData(ud, t.UDH, tpdu.Alphabet(alpha), dec...)
			k.Seen("dec", desc, ref.UDHBytes(h), ud)
			if o && (err != nil || string(got) != w) {
				k.Fail("decode-ud", "with %s decodes to %q, %v, want %q", desc, got, err, w)
			}
			l, s := locking, shift
			if len(sdec) == 0 { // all is the default
				l = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
				s = l
			}
			w, _ = refDecodeUD(ud, h, alpha, known(l), known(s))
			wantS.WriteString(w)
		}
		got, err := sms.Decode(segs, sdec...)
		if ok && (err != nil || string(got) != wantS.String()) {
			k.Fail("decode", "with %s decodes to %q, %v, want %q", desc, got, err, wantS.String())
		}
		var def strings.Builder
		for _, s := range segs {
			a, _, _, _ := ref.DCS(byte(s.DCS))
			w, _ := refDecodeUD(s.UD, nil, a, nil, nil)
			def.WriteString(w)
		}
		got, err = sms.Decode(segs, sms.WithDefaultCharset)
		if ok && (err != nil || string(got) != def.String()) {
			k.Fail("decode-default", "with the default charset decodes to %q, %v, want %q", got, err, def.String())
		}
	})
}

// p23: UCS-2.
func p23(c *mon.Ctx) {
	c.Rule("every code point and every 16 bit unit in context, random well-formed and malformed UTF-16, and messages split into segments at arbitrary 16 bit boundaries, against an independent UTF-16 decoder. Non-trivial: distinct unit sequences and splits.")
	history(c, append(histUCS2(), histDecode())...)
	chk := func(k *mon.Case, b []byte) {
		g := newGuard(b)
		got, err := ucs2.Decode(g.b)
		want, dangling, odd := ref.DecodeUCS2(b)
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "%s", d)
		}
		switch {
		case odd:
			if !errors.Is(err, ucs2.ErrInvalidLength) {
				k.Fail("odd", "odd length %x gave %v, %v", b, got, err)
			}
			return
		case dangling != nil:
			d, ok := err.(ucs2.ErrDanglingSurrogate)
			if !ok || !bytes.Equal(d, dangling) {
				k.Fail("dangling", "%x gave %v, %v, want dangling %x", b, got, err, dangling)
			}
		case err != nil:
			k.Fail("error", "%x gave %v", b, err)
		}
		if string(got) != string(want) {
			k.Fail("decode", "%x decodes to %U, want %U", b, got, want)
		}
	}
	c.Run("codepoints", 0x110000/4096, func(k *mon.Case) {
		for i := 0; i < 4096; i++ {
			r := rune(k.I*4096 + i)
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			k.C.Count("codepoints", 1)
			b := ucs2.Encode([]rune{r})
			if w := ref.EncodeUCS2(string(r)); !bytes.Equal(b, w) {
				k.Fail("encode", "%U encodes to %x, want %x", r, b, w)
			}
			if got, err := ucs2.Decode(b); err != nil || len(got) != 1 || got[0] != r {
				k.Fail("inverse", "%U encodes to %x, decodes to %U, %v", r, b, got, err)
			}
			if i%64 == 0 {
				k.Seen("cp", r)
			}
		}
	})
	c.Run("units", 65536/256, func(k *mon.Case) {
		for i := 0; i < 256; i++ {
			hi := byte(k.I)
			k.Reset()
			k.Seen("unit", hi, i)
			chk(k, []byte{hi, byte(i)})
			chk(k, []byte{hi, byte(i), 0, 'a'})
			chk(k, []byte{0xd8, 0x3d, hi, byte(i)})
			chk(k, []byte{0xd8, 0x3d, hi, byte(i), 0xde, 0x01})
			chk(k, []byte{hi, byte(i), 0xde, 0x01})
			chk(k, []byte{0, 'a', hi, byte(i), 0xdf, 0xff, 0, 'b'})
		}
	})
	c.Exhaustive("every code point; every 16 bit unit in six contexts")
	gen := func(r *mon.Rng) []byte {
		switch r.IntN(4) {
		case 0:
			return ref.EncodeUCS2(genText(r, kBMP, 0, r.Range(0, 40)))
		case 1:
			return ref.EncodeUCS2(genText(r, kAstral, 0, r.Range(0, 40)))
		case 2: // dense surrogates
			b := r.Bytes(2 * r.IntN(12))
			for i := 0; i < len(b); i += 2 {
				if r.P(3, 4) {
					b[i] = 0xd8 | b[i]&7
				}
			}
			return b
		}
		if r.P(1, 3) { // long, of either parity
			return append(ref.EncodeUCS2(genText(r, pick(r, []int{kBMP, kAstral}), 0, r.Range(20, 200))), r.Bytes(r.IntN(2))...)
		}
		return r.Bytes(r.IntN(30))
	}
	c.Run("strings", c.N(20000), func(k *mon.Case) {
		b := gen(k.R())
		k.Input("ucs2", b)
		k.Seen("s", b)
		chk(k, b)
		if w, d, odd := ref.DecodeUCS2(b); !odd && d == nil && !bytes.Contains([]byte(string(w)), []byte("\ufffd")) {
			got, _ := ucs2.Decode(b)
			if e := ucs2.Encode(got); !bytes.Equal(e, b) {
				k.Fail("inverse", "%x decodes to %U, encodes to %x", b, got, e)
			}
		}
		rs := make([]rune, k.R().IntN(10))
		for i := range rs { // including values which are not characters
			rs[i] = rune(k.R().IntN(0x120000))
			if k.R().P(1, 4) {
				rs[i] = 0xd800 + rune(k.R().IntN(0x800))
			}
		}
		var w []byte
		for _, x := range rs {
			if x > 0x10ffff {
				x = 0xfffd
			}
			w = append(w, ref.EncodeUCS2(string(x))...)
		}
		if e := ucs2.Encode(rs); !bytes.Equal(e, w) {
			k.Fail("encode", "%U encodes to %x, want %x", rs, e, w)
		}
	})
	c.Run("split", c.N(20000), func(k *mon.Case) {
		r := k.R()
		b := gen(r)
		b = b[:len(b)&^1]
		var segs []*tpdu.TPDU
		var cuts []int
		odd := false
		for off := 0; off < len(b); {
			n := 2 * r.Range(1, max(1, (len(b)-off)/2))
			if r.P(1, 3) {
				n = 2
			}
			n = min(n, len(b)-off)
			if r.P(1, 40) && n > 1 {
				n--
				odd = true
			}
			cuts = append(cuts, n)
			segs = append(segs, &tpdu.TPDU{DCS: 8, UD: append([]byte(nil), b[off:off+n]...)})
			off += n
			if r.P(1, 12) {
				segs = append(segs, &tpdu.TPDU{DCS: 8})
			}
		}
		k.Input("ucs2", b, "cuts", cuts)
		k.Seen("split", b, fmt.Sprint(cuts))
		var before []*tpdu.TPDU
		for _, s := range segs {
			before = append(before, cloneTPDU(s))
		}
		got, err := sms.Decode(segs)
		want, dangling, _ := ref.DecodeUCS2(b)
		switch {
		case odd:
			if err == nil {
				k.Fail("odd", "segments of odd length decode to %q", got)
			}
		case dangling != nil:
			d, ok := err.(ucs2.ErrDanglingSurrogate)
			if !ok || !bytes.Equal(d, dangling) {
				k.Fail("dangling", "%x split at %v gave %q, %v, want dangling %x", b, cuts, got, err, dangling)
			}
		default:
			if err != nil || string(got) != string(want) {
				k.Fail("split", "%x split at %v decodes to %q, %v, want %q", b, cuts, got, err, string(want))
			}
			c.Count("split_decodes", 1)
		}
		for i := range segs {
			if d := same(segs[i], before[i]); d != "" {
				k.Fail("input-modified", "segment %d: %s", i, d)
			}
		}
		got2, err2 := sms.Decode(segs)
		if !bytes.Equal(got, got2) || fmt.Sprint(err) != fmt.Sprint(err2) {
			k.Fail("repeat", "decoding again gave %q, %v, first %q, %v", got2, err2, got, err)
		}
	})
	// half a pair is joined only to text in UCS-2
	c.Run("mixed", c.N(6000), func(k *mon.Case) {
		r := k.R()
		var segs []*tpdu.TPDU
		var want []byte
		var held, dangling []byte // half a pair held over from the previous segment, or reported
		for i, n := 0, r.Range(2, 6); i < n; i++ {
			alpha := pick(r, []int{ref.AUCS2, ref.AUCS2, ref.A7, ref.A8})
			var ud []byte
			var text string
			switch alpha {
			case ref.A7:
				ud = r.Bytes(r.IntN(12))
				for j := range ud {
					ud[j] &= 0x7f
				}
				text, _ = refDecodeUD(ud, nil, ref.A7, nil, nil)
			case ref.A8:
				ud = r.Bytes(r.IntN(12))
				text = string(ud)
			default:
				text = genText(r, kAstral, 0, r.IntN(6))
				ud = ref.EncodeUCS2(text)
				if held != nil { // the rest of the pair
					ud = append([]byte{0xde, byte(r.IntN(256))}, ud...)
					w, _, _ := ref.DecodeUCS2(append(held, ud...))
					text = string(w)
					held = nil
				}
				if r.P(1, 2) {
					held = []byte{0xd8, byte(r.IntN(256))}
					ud = append(ud, held...)
				}
			}
			if alpha != ref.AUCS2 && held != nil && dangling == nil {
				dangling = held
			}
			segs = append(segs, &tpdu.TPDU{DCS: tpdu.DCS(pick(r, dcsFor[alpha])), UD: ud})
			want = append(want, text...)
			k.Input("dcs", segs[i].DCS, "ud", ud)
			k.Seen("mixed", alpha, ud)
		}
		if dangling == nil {
			dangling = held
		}
		got, err := sms.Decode(segs)
		if dangling == nil {
			c.Count("mixed_decodes", 1)
			if err != nil || string(got) != string(want) {
				k.Fail("mixed", "segments decode to %q, %v, want %q", got, err, want)
			}
			return
		}
		if d, ok := err.(ucs2.ErrDanglingSurrogate); !ok || !bytes.Equal(d, dangling) {
			k.Fail("mixed-dangling", "half a pair followed by a segment which is not in UCS-2 gave %q, %v, want dangling %x", got, err, dangling)
		}
	})
	// as split by an encoder which ignores surrogates, with lengths of a full segment
	c.Run("boundary", c.N(1500), func(k *mon.Case) {
		r := k.R()
		n := pick(r, []int{132, 134, 140, 2, 4, 66})
		b := ref.EncodeUCS2(genText(r, kAstral, 0, r.Range(1, 300)))
		var segs []*tpdu.TPDU
		for off := 0; off < len(b); off += n {
			segs = append(segs, &tpdu.TPDU{DCS: tpdu.DCS(pick(r, dcsFor[ref.AUCS2])), UD: append([]byte(nil), b[off:min(off+n, len(b))]...)})
		}
		k.Input("ucs2", b, "size", n)
		k.Seen("boundary", b, n)
		got, err := sms.Decode(segs)
		want, _, _ := ref.DecodeUCS2(b)
		if err != nil || string(got) != string(want) {
			k.Fail("split", "segments of %d decode to %q, %v, want %q", n, got, err, string(want))
		}
	})
}

// p25: complete messages.
func p25(c *mon.Ctx) {
	c.Rule("sets of segments which are complete, and such sets with a segment missing, repeated, out of order, leaving a gap, replaced by one of another message, or with inconsistent totals, with references of either width. Non-trivial: distinct lists of concatenation information.")
	history(c, histComplete())
	c.Run("sets", c.N(30000), func(k *mon.Case) {
		r := k.R()
		type info struct {
			segs, seq, ref int
			ok             bool
		}
		wide := r.P(1, 2)
		n := r.Range(1, 6)
		switch {
		case r.P(1, 20):
			n = pick(r, []int{100, 254, 255})
		case r.P(1, 10):
			n = r.Range(7, 64)
		case r.P(1, 50):
			n = r.Range(1, 255)
		}
		cref := r.IntN(256)
		if wide && r.P(2, 3) {
			cref = r.IntN(65536)
		}
		var list []info
		for i := 0; i < n; i++ {
			list = append(list, info{n, i + 1, cref, true})
		}
		if n == 1 && r.P(1, 2) {
			list[0].ok = false
		}
		for m := r.IntN(3); m > 0 && len(list) > 0; m-- {
			i := r.IntN(len(list))
			j := r.IntN(len(list))
			switch r.IntN(9) {
			case 0:
				list = append(list[:i], list[i+1:]...)
			case 1:
				list = append(list, list[i])
			case 2:
				list[i], list[j] = list[j], list[i]
			case 3:
				x := 1 << r.IntN(16)
				if !wide {
					x &= 0xff
				}
				list[i].ref ^= x
			case 4:
				list[i].segs = (list[i].segs + r.Range(1, 254)) & 0xff
			case 5:
				list[i].seq = r.IntN(256)
			case 6:
				if list[i].ok = false; r.P(1, 2) { // or says nothing of use
					list[i] = info{pick(r, []int{0, 0, 1, n}), pick(r, []int{0, 0, 1}), pick(r, []int{0, cref}), true}
				}
			case 7:
				list[i] = list[j]
			case 8:
				x := r.IntN(3)
				for y := range list {
					list[y].segs = (len(list) + x) & 0xff
				}
			}
		}
		if r.P(1, 100) {
			list = nil
		}
		// the model
		want := len(list) > 0
		if want && !list[0].ok {
			want = len(list) == 1
		} else {
			for i, x := range list {
				if !x.ok || x.segs != len(list) || x.ref != list[0].ref || x.seq != i+1 {
					want = false
				}
			}
		}
		var segs []*tpdu.TPDU
		oa, da := genAddr(r), genAddr(r)
		kind, varied := r.IntN(2), r.P(1, 2)
		for _, x := range list {
			t := &tpdu.TPDU{FirstOctet: 0x40}
			if varied { // of no consequence to what is a segment of what
				t = &tpdu.TPDU{Direction: tpdu.Direction(kind), FirstOctet: tpdu.FirstOctet(0x40 | kind | int(r.Uint32())&0xbc), OA: tpdu.Address{TOA: oa.TOA, Addr: oa.Text}, DA: tpdu.Address{TOA: da.TOA, Addr: da.Text},
					MR: byte(r.Uint32()), CT: byte(r.Uint32()), MN: byte(r.Uint32()), FCS: byte(r.Uint32()), ST: byte(r.Uint32()),
					PI: tpdu.PI(r.Uint32()), PID: byte(r.Uint32()), DCS: tpdu.DCS(r.Uint32()), UD: r.Bytes(r.IntN(20))}
			}
			for j := r.IntN(3); j > 0; j-- {
				t.UDH = append(t.UDH, tpdu.InformationElement{ID: pick(r, []byte{1, 24, 25, 0x70}), Data: r.Bytes(r.IntN(4))})
			}
			if x.ok {
				d := []byte{byte(x.ref), byte(x.segs), byte(x.seq)}
				id := byte(0)
				if wide {
					d = append([]byte{byte(x.ref >> 8)}, d...)
					id = 8
				}
				t.UDH = append(t.UDH, tpdu.InformationElement{ID: id, Data: d})
			} else if r.P(1, 3) { // malformed elements carry no information
				t.UDH = append(t.UDH, tpdu.InformationElement{ID: pick(r, []byte{0, 8}), Data: r.Bytes(pick(r, []int{0, 1, 2, 5}))})
			}
			for j := r.IntN(3); j > 0; j-- {
				t.UDH = append(t.UDH, tpdu.InformationElement{ID: pick(r, []byte{1, 24, 25, 0x70}), Data: r.Bytes(r.IntN(4))})
			}
			for i, y := range list[:len(segs)] { // the very same segment
				if x == y && r.P(1, 2) {
					t = segs[i]
				}
			}
			segs = append(segs, t)
			s, q, m, ok := t.ConcatInfo()
			w := x
			if !x.ok {
				w = info{}
			}
			if (info{s, q, m, ok}) != w {
				k.Fail("info", "segment with %v has concatenation information %d %d %d %v", t.UDH, s, q, m, ok)
			}
			if t.IsSingleSegment() == x.ok {
				k.Fail("single", "segment with %v is single: %v", t.UDH, t.IsSingleSegment())
			}
		}
		k.Input("segments (total, seqno, ref, ok)", list, "wide", wide)
		var gaps []int
		if r.P(1, 6) { // as in what an expiry handler receives
			for n := r.Range(1, 2); n > 0 && len(segs) > 0; n-- {
				gaps = append(gaps, r.IntN(len(segs)))
				segs[gaps[len(gaps)-1]] = nil
				want = false
			}
			if r.P(1, 3) {
				segs = append(segs, nil)
				want = false
			}
			k.Input("gaps", gaps, "length", len(segs))
			c.Count("with_gaps", 1)
		}
		k.Seen(fmt.Sprint(list, wide, gaps))
		c.Count(fmt.Sprintf("complete.%v", want), 1)
		if got := sms.IsCompleteMessage(segs); got != want {
			k.Fail("complete", "recognised as complete: %v, want %v", got, want)
		}
	})
	// all arrangements of a few segments
	c.Run("arrangements", 4096, func(k *mon.Case) {
		// four positions, each one of 8: seqno 1-4 of this message, or none,
		// other reference, other total, or seqno 0
		mk := func(x int) *tpdu.TPDU {
			d := []byte{7, 4, byte(x + 1)}
			switch x {
			case 4:
				return &tpdu.TPDU{}
			case 5:
				d = []byte{8, 4, 1}
			case 6:
				d = []byte{7, 3, 1}
			case 7:
				d = []byte{7, 4, 0}
			}
			return &tpdu.TPDU{UDH: tpdu.UserDataHeader{{ID: 0, Data: d}}}
		}
		var segs []*tpdu.TPDU
		for s := 0; s < 12; s += 3 {
			segs = append(segs, mk(k.I>>s&7))
		}
		k.Input("arrangement", fmt.Sprintf("%04o", k.I))
		k.Seen("arr", k.I)
		if got, want := sms.IsCompleteMessage(segs), k.I == 0o3210; got != want {
			k.Fail("arrangement", "recognised as complete: %v, want %v", got, want)
		}
		for n := 0; n < 4; n++ {
			want := n == 1 && k.I&7 == 4
			if got := sms.IsCompleteMessage(segs[:n]); got != want {
				k.Fail("arrangement", "first %d recognised as complete: %v, want %v", n, got, want)
			}
		}
	})
	c.Exhaustive("4096 arrangements of eight kinds of segment in four positions")
}
