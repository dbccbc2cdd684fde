package checks

import (
	"bytes"
	"fmt"

	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	Reg["P20"] = p20
	Reg["P21"] = p21
}

// p20: packing of septets.
func p20(c *mon.Ctx) {
	c.Rule("septet strings of every length to 300 with all fill bit counts, all strings of up to two septets and all octet strings of up to two octets, and CR, zero and escape laden strings, against a bit by bit packer. Non-trivial: distinct (septets, fill).")
	history(c, histPacking()...)
	pack := func(k *mon.Case, u []byte, fill int) {
		g := newGuard(u)
		p := gsm7.Pack7Bit(g.b, fill)
		want := ref.Pack(u, fill)
		if len(u) == 0 {
			want = nil
		}
		k.Seen("p", u, fill)
		if !bytes.Equal(p, want) {
			k.Fail("pack", "%x with %d fill bits packs to %x, want %x", u, fill, p, want)
			return
		}
		// unpacking recovers the septets, with perhaps a final zero
		q := newGuard(p)
		v := gsm7.Unpack7Bit(q.b, fill)
		if len(u) > 0 && (len(v) < len(u) || !bytes.Equal(v[:len(u)], u) || len(v) > len(u)+1 || len(v) == len(u)+1 && v[len(u)] != 0) {
			k.Fail("pack-inverse", "%x with %d fill bits packs to %x, unpacks to %x", u, fill, p, v)
		}
		if len(u) > 0 && (len(v) > len(u)) != ((len(u)*7+fill)%8 == 1) {
			k.Fail("pack-count", "%x with %d fill bits unpacks to %d septets, from %d", u, fill, len(v), len(u))
		}
		x := gsm7.Pack7BitUSSD(g.b, fill)
		y := gsm7.Unpack7BitUSSD(x, fill)
		n := len(u)
		if n > 0 {
			ww := ref.Pack(u, fill)
			switch unused := len(ww)*8 - fill - n*7; {
			case unused == 7:
				ww[len(ww)-1] |= 0x0d << 1
			case unused == 0 && u[n-1] == 0x0d:
				ww = append(ww, 0x0d)
			}
			if !bytes.Equal(x, ww) {
				k.Fail("ussd-pack", "%x with %d fill bits packs for USSD to %x, want %x", u, fill, x, ww)
			}
		} else if len(x) != 0 {
			k.Fail("ussd-pack", "nothing packs for USSD to %x", x)
		}
		// inherently ambiguous: CR CR where the last starts on an octet boundary
		amb := n > 1 && u[n-1] == 0x0d && u[n-2] == 0x0d && (fill+(n-1)*7)%8 == 0
		if !amb && n > 0 && !bytes.Equal(y, u) {
			k.Fail("ussd-inverse", "%x with %d fill bits packs for USSD to %x, unpacks to %x", u, fill, x, y)
		}
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "packing: %s", d)
		}
		if d := q.diff(); d != "" {
			k.Fail("input-modified", "unpacking: %s", d)
		}
	}
	unpack := func(k *mon.Case, p []byte, fill int) {
		g := newGuard(p)
		u := gsm7.Unpack7Bit(g.b, fill)
		want := ref.Unpack(p, fill)
		k.Seen("u", p, fill)
		if !bytes.Equal(u, want) {
			k.Fail("unpack", "%x with %d fill bits unpacks to %x, want %x", p, fill, u, want)
		}
		v := gsm7.Unpack7BitUSSD(g.b, fill)
		if n := len(want); n > 0 && want[n-1] == 0x0d {
			unused := len(p)*8 - fill - n*7
			if unused == 0 || unused == 1 && n > 1 && want[n-2] == 0x0d {
				want = want[:n-1]
			}
		}
		if !bytes.Equal(v, want) {
			k.Fail("ussd-unpack", "%x with %d fill bits unpacks for USSD to %x, want %x", p, fill, v, want)
		}
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "unpacking: %s", d)
		}
		for _, s := range u {
			if s > 0x7f {
				k.Fail("unpack", "%x with %d fill bits unpacks to %x, which are not septets", p, fill, u)
			}
		}
	}
	c.Run("lengths", 301*8, func(k *mon.Case) {
		r := k.R()
		n, fill := k.I/8, k.I%8
		for i := 0; i < 6; i++ {
			k.Reset()
			u := r.Bytes(n)
			for j := range u {
				u[j] &= 0x7f
				if i == 1 || i > 1 && r.P(1, 4) {
					u[j] = pick(r, []byte{0x0d, 0, 0x7f, 0x1b, 0x40, 0x1a, 0x68})
				}
			}
			for j := 1; j <= n && i >= 2; j++ { // characteristic endings
				if j <= i-1 {
					u[n-j] = pick(r, []byte{0x0d, 0x0d, 0})
				}
			}
			pack(k, u, fill)
			unpack(k, r.Bytes(n), fill)
		}
	})
	c.Run("short", 128, func(k *mon.Case) {
		for fill := 0; fill < 8; fill++ {
			pack(k, []byte{byte(k.I)}, fill)
			for b := 0; b < 128; b++ {
				pack(k, []byte{byte(k.I), byte(b)}, fill)
			}
		}
	})
	c.Run("octets", 256, func(k *mon.Case) {
		for fill := 0; fill < 8; fill++ {
			unpack(k, []byte{byte(k.I)}, fill)
			for b := 0; b < 256; b++ {
				unpack(k, []byte{byte(k.I), byte(b)}, fill)
			}
		}
	})
	// endings at every alignment: the last two septets of strings of 7 to 24
	c.Run("endings", 128, func(k *mon.Case) {
		r := k.R()
		for n := 3; n < 20; n++ {
			for fill := 0; fill < 8; fill++ {
				u := r.Bytes(n)
				for i := range u {
					u[i] &= 0x7f
				}
				u[n-1] = byte(k.I)
				pack(k, u, fill)
				u[n-2] = 0x0d
				pack(k, u, fill)
				p := r.Bytes(n)
				p[n-1] = byte(k.I)<<1 | p[n-1]&1
				unpack(k, p, fill)
				p[n-1] = 0x1a | p[n-1]&1
				unpack(k, p, fill)
				p[n-1] = 0x0d
				unpack(k, p, fill)
			}
		}
	})
	c.Exhaustive("all strings of one or two septets, and of one or two octets, with all fill bit counts; every length to 300")
}

// p21: GSM7 character sets.
func p21(c *mon.Ctx) {
	c.Rule("every septet, escaped septet and Unicode character in every locking and shift table, and random strings of both in all table combinations and modes, against tables from 23.038. Non-trivial: distinct (tables, mode, text or septets).")
	history(c, histGSM7()...)
	nlis := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 100, 255, -1}
	// the entry of the transcribed tables which is not that of 23.038 A.3.6
	c.Run("hindi", 1, func(k *mon.Case) {
		k.Seen("hindi-00")
		got, err := gsm7.Decode([]byte{0}, gsm7.WithCharset(charset.Hindi))
		if string(got) == "\u0981" {
			k.Fail("hindi-candrabindu", "septet 00 of the Hindi locking table is U+0981 (Bengali), not U+0901")
		} else if string(got) != "\u0901" {
			k.Fail("decode", "00 in Hindi decodes to %q, %v", got, err)
		}
	})
	decode := func(k *mon.Case, src []byte, lock, shift int, mode int) {
		opts := []gsm7.DecoderOption{}
		if lock != 0 || mode&4 != 0 {
			opts = append(opts, gsm7.WithCharset(lock))
		}
		st := ref.Shift(shift)
		if mode&2 != 0 {
			opts = append(opts, gsm7.WithoutExtCharset)
			st = nil
		} else if shift != 0 || mode&4 != 0 {
			opts = append(opts, gsm7.WithExtCharset(shift))
		}
		strict := mode&1 != 0
		if strict {
			opts = append(opts, gsm7.Strict)
		}
		g := newGuard(src)
		got, err := gsm7.Decode(g.b, opts...)
		want, bad, ok := ref.DecodeGSM(src, ref.Lock(lock), st, strict)
		k.Seen("d", src, lock, shift, mode)
		if ok {
			if err != nil || string(got) != want {
				k.Fail("decode", "%x with tables %d,%d mode %d decodes to %q, %v, want %q", src, lock, shift, mode, got, err, want)
			}
		} else if e, is := err.(gsm7.ErrInvalidSeptet); !is || byte(e) != bad {
			k.Fail("strict", "%x with tables %d,%d mode %d decodes to %q, %v, want invalid septet %02x", src, lock, shift, mode, got, err, bad)
		}
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "%s", d)
		}
		if mode&4 != 0 { // the equivalent built up by methods
			d := gsm7.NewDecoder().WithCharset(charset.NewDecoder(lock))
			if mode&2 != 0 {
				d = d.WithExtCharset(nil)
			} else {
				d = d.WithExtCharset(charset.NewExtDecoder(shift))
			}
			if strict {
				d = d.Strict()
			}
			got2, err2 := d.Decode(src)
			if !bytes.Equal(got, got2) || fmt.Sprint(err) != fmt.Sprint(err2) {
				k.Fail("decoder", "%x with tables %d,%d mode %d decodes to %q, %v and %q, %v", src, lock, shift, mode, got, err, got2, err2)
			}
		}
	}
	encode := func(k *mon.Case, text string, lock, shift int, mode int) {
		opts := []gsm7.EncoderOption{}
		if lock != 0 || mode != 0 {
			opts = append(opts, gsm7.WithCharset(lock))
		}
		if shift != 0 || mode != 0 {
			opts = append(opts, gsm7.WithExtCharset(shift))
		}
		g := newGuard([]byte(text))
		got, err := gsm7.Encode(g.b, opts...)
		want, ok := ref.EncodeGSM(text, ref.LockInv(lock), ref.ShiftInv(shift))
		k.Seen("e", text, lock, shift)
		if ok {
			if err != nil || !bytes.Equal(got, want) {
				k.Fail("encode", "%q with tables %d,%d encodes to %x, %v, want %x", text, lock, shift, got, err, want)
				return
			}
			back, err := gsm7.Decode(got, gsm7.WithCharset(lock), gsm7.WithExtCharset(shift), gsm7.Strict)
			if err != nil || string(back) != text {
				k.Fail("inverse", "%q with tables %d,%d encodes to %x, decodes to %q, %v", text, lock, shift, got, back, err)
			}
		} else if _, is := err.(gsm7.ErrInvalidUTF8); !is || got != nil {
			k.Fail("unencodable", "%q with tables %d,%d encodes to %x, %v", text, lock, shift, got, err)
		}
		if d := g.diff(); d != "" {
			k.Fail("input-modified", "%s", d)
		}
		if mode != 0 {
			e := gsm7.NewEncoder().WithCharset(charset.NewEncoder(lock)).WithExtCharset(charset.NewExtEncoder(shift))
			got2, err2 := e.Encode([]byte(text))
			if !bytes.Equal(got, got2) || fmt.Sprint(err) != fmt.Sprint(err2) {
				k.Fail("encoder", "%q with tables %d,%d encodes to %x, %v and %x, %v", text, lock, shift, got, err, got2, err2)
			}
		}
	}
	c.Run("tables", len(nlis), func(k *mon.Case) {
		n := nlis[k.I]
		k.Input("nli", n)
		for s := 0; s < 128; s++ {
			for mode := 0; mode < 4; mode++ {
				decode(k, []byte{byte(s)}, n, 0, mode)
				decode(k, []byte{ref.Esc, byte(s)}, 0, n, mode)
				decode(k, []byte{ref.Esc, byte(s)}, n, n, mode|4)
				decode(k, []byte{byte(s)}, n, n, mode|4)
				decode(k, []byte{byte(s), ref.Esc}, n, n, mode)
				decode(k, []byte{ref.Esc, ref.Esc, byte(s)}, n, n, mode)
			}
		}
		for s := 128; s < 256; s++ { // not septets
			decode(k, []byte{byte(s)}, n, n, 0)
			decode(k, []byte{byte(s)}, n, n, 1)
		}
		// the tables themselves, when one exists for the language
		d, x := charset.NewDecoder(n), charset.NewExtDecoder(n)
		if fmt.Sprint(map[byte]rune(d)) != fmt.Sprint(ref.Lock(n)) {
			k.Fail("table", "locking table %d is %v, want %v", n, d, ref.Lock(n))
		}
		if fmt.Sprint(map[byte]rune(x)) != fmt.Sprint(ref.Shift(n)) {
			k.Fail("table", "shift table %d is %v, want %v", n, x, ref.Shift(n))
		}
		if e := charset.NewEncoder(n); fmt.Sprint(map[rune]byte(e)) != fmt.Sprint(ref.LockInv(n)) {
			k.Fail("table", "locking encoding table %d is %v, want %v", n, e, ref.LockInv(n))
		}
		if e := charset.NewExtEncoder(n); fmt.Sprint(map[rune]byte(e)) != fmt.Sprint(ref.ShiftInv(n)) {
			k.Fail("table", "shift encoding table %d is %v, want %v", n, e, ref.ShiftInv(n))
		}
		if n == 0 {
			if fmt.Sprint(charset.DefaultDecoder()) != fmt.Sprint(d) || fmt.Sprint(charset.DefaultExtDecoder()) != fmt.Sprint(x) ||
				fmt.Sprint(charset.DefaultEncoder()) != fmt.Sprint(charset.NewEncoder(0)) || fmt.Sprint(charset.DefaultExtEncoder()) != fmt.Sprint(charset.NewExtEncoder(0)) {
				k.Fail("table", "default tables differ")
			}
		}
	})
	// every character: those beyond the BMP are in no table, so sampled
	c.Run("characters", 0x11000/256, func(k *mon.Case) {
		for i := 0; i < 256; i++ {
			r := rune(k.I*256 + i)
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			for n := 0; n < 14; n++ {
				if k.I > 16 && n > 0 && n != i%14 {
					if _, ok := ref.LockInv(n)[r]; !ok {
						if _, ok := ref.ShiftInv(n)[r]; !ok {
							continue
						}
					}
				}
				got, err := gsm7.Encode([]byte(string(r)), gsm7.WithCharset(n), gsm7.WithExtCharset(n))
				want, ok := ref.EncodeGSM(string(r), ref.LockInv(n), ref.ShiftInv(n))
				k.C.Count("characters", 1)
				if ok != (err == nil) || ok && !bytes.Equal(got, want) {
					k.Fail("encode", "%U in table %d encodes to %x, %v, want %x", r, n, got, err, want)
				}
			}
		}
		k.Seen("chars", k.I)
	})
	c.Exhaustive("every septet and escaped septet in every table and mode; every BMP character below U+1100 in every language, the rest in some")
	c.Run("septets", c.N(20000), func(k *mon.Case) {
		r := k.R()
		src := r.Bytes(r.IntN(40))
		for i := range src {
			src[i] &= 0x7f
			if r.P(1, 4) {
				src[i] = ref.Esc
			}
			if r.P(1, 200) {
				src[i] |= 0x80
			}
		}
		k.Input("septets", src)
		lock, shift := pick(r, nlis), pick(r, nlis)
		if r.P(1, 2) { // only characters with meaning, for strict decoding to succeed
			for i := 0; i < len(src); i++ {
				if src[i] == ref.Esc && i+1 < len(src) {
					for s := r.IntN(128); s < 256; s++ {
						if _, ok := ref.Shift(shift)[byte(s&0x7f)]; ok {
							src[i+1] = byte(s & 0x7f)
							break
						}
					}
					i++
				}
			}
		}
		decode(k, src, lock, shift, r.IntN(8))
	})
	// tables of the caller's own
	c.Run("own tables", c.N(4000), func(k *mon.Case) {
		r := k.R()
		size := func() int { return pick(r, []int{0, 1, 2, 3, 4, 10, 60, 127}) }
		table := func() map[byte]rune {
			m := map[byte]rune{}
			for n := size(); n > 0; n-- {
				if g := byte(r.IntN(128)); g != 0x1b {
					m[g] = pick(r, []rune{rune(r.IntN(128)), rune(r.Range(0x80, 0xd7ff)), rune(r.Range(0xe000, 0x10ffff))})
				}
			}
			return m
		}
		inv := func(m map[byte]rune) map[rune]byte {
			o := map[rune]byte{}
			for g := 0; g < 128; g++ {
				if x, ok := m[byte(g)]; ok && x != 0x1b {
					o[x] = byte(g)
				}
			}
			return o
		}
		lock, shift := table(), table()
		src := r.Bytes(r.IntN(40))
		var text []rune
		for i := range src {
			if src[i] &= 0x7f; r.P(1, 6) {
				src[i] = 0x1b
			}
			for _, m := range []map[byte]rune{lock, shift} {
				if x, ok := m[src[i]]; ok {
					text = append(text, x)
				}
			}
		}
		if r.P(1, 6) {
			text = append(text, pick(r, []rune{0x1b, 'a', '@', '€', 0x1f600}))
		}
		strict := r.P(1, 2)
		k.Input("tables", lock, shift, "septets", src, "text", string(text), "strict", strict)
		k.Seen("own", fmt.Sprint(lock, shift), src, string(text), strict)
		d0 := gsm7.NewDecoder()
		d1 := d0.WithCharset(lock)
		d2 := d1.WithExtCharset(shift)
		d3 := d0.WithExtCharset(shift)
		if strict {
			d1, d2, d3 = d1.Strict(), d2.Strict(), d3.Strict()
		}
		type dec struct {
			what        string
			d           *gsm7.Decoder
			lock, shift map[byte]rune
			strict      bool
		}
		for _, x := range []dec{
			{"own tables", &d2, lock, shift, strict},
			{"own table and the default shift table", &d1, lock, ref.Shift(0), strict},
			{"default table and own shift table", &d3, ref.Lock(0), shift, strict},
			{"the decoder others were made from", &d0, ref.Lock(0), ref.Shift(0), false},
		} {
			got, err := x.d.Decode(src)
			want, bad, ok := ref.DecodeGSM(src, x.lock, x.shift, x.strict)
			if e, is := err.(gsm7.ErrInvalidSeptet); ok && (err != nil || string(got) != want) || !ok && (!is || byte(e) != bad) {
				k.Fail("own-decode", "with %s %x decodes to %q, %v, want %q, %v (invalid %02x)", x.what, src, got, err, want, ok, bad)
			}
		}
		e0 := gsm7.NewEncoder()
		li, si := inv(lock), inv(shift)
		e1 := e0.WithCharset(li)
		e2 := e1.WithExtCharset(si)
		e3 := e0.WithExtCharset(si)
		type enc struct {
			what        string
			e           *gsm7.Encoder
			lock, shift map[rune]byte
		}
		for _, x := range []enc{
			{"own tables", &e2, li, si},
			{"own table and the default shift table", &e1, li, ref.ShiftInv(0)},
			{"default table and own shift table", &e3, ref.LockInv(0), si},
			{"the encoder others were made from", &e0, ref.LockInv(0), ref.ShiftInv(0)},
		} {
			got, err := x.e.Encode([]byte(string(text)))
			want, ok := ref.EncodeGSM(string(text), x.lock, x.shift)
			if _, is := err.(gsm7.ErrInvalidUTF8); ok && (err != nil || !bytes.Equal(got, want)) || !ok && (!is || got != nil) {
				k.Fail("own-encode", "with %s %q encodes to %x, %v, want %x, %v", x.what, string(text), got, err, want, ok)
			}
		}
	})
	c.Run("texts", c.N(20000), func(k *mon.Case) {
		r := k.R()
		lock, shift := pick(r, nlis), pick(r, nlis)
		nli := max(lock, 0)
		kind := r.IntN(kKinds)
		if r.P(1, 2) {
			shift = lock
			kind = pick(r, []int{kLock, kShift, kBoth})
		}
		if nli > 13 {
			nli = 0
		}
		text := genText(r, kind, nli, r.IntN(30))
		k.Input("text", text)
		encode(k, text, lock, shift, r.IntN(2))
	})
}
