package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	Reg["P01"] = p01
	Reg["P02"] = p02
	Reg["P03"] = p03
	Reg["P22"] = p22
	Reg["P23"] = p23
	Reg["P25"] = p25
}

// flight is a message on its way from sender to receiver.
type flight struct {
	text  []byte
	alpha int
	segs  []*tpdu.TPDU // as received
	sent  []tpdu.TPDU
	done  bool
	desc  string
}

// consistent is true if the template describes a TPDU that can be marshalled.
func consistent(t *tpdu.TPDU) bool {
	if int(t.FirstOctet&3) == 1 && t.Direction == tpdu.MO {
		return int(t.FirstOctet>>3&3) == int(t.VP.Format)
	}
	return true
}

// transmit converts the TPDUs to binary and back.
func transmit(k *mon.Case, r *mon.Rng, pdus []tpdu.TPDU) []*tpdu.TPDU {
	var out []*tpdu.TPDU
	mode := r.IntN(3)
	for i := range pdus {
		b, err := pdus[i].MarshalBinary()
		if err != nil {
			k.Fail("marshal", "segment %d does not marshal: %v: %+v", i, err, pdus[i])
			return nil
		}
		if mode > 0 {
			p := pdumode.PDU{TPDU: b}
			if r.P(1, 2) {
				p.SMSC.TOA = 0x91
				p.SMSC.Addr = genNumber(r)
			}
			if mode == 1 {
				h, err := p.MarshalHexString()
				if err != nil {
					k.Fail("pdumode", "segment %d: %v", i, err)
					return nil
				}
				if r.P(1, 2) {
					h = strings.ToUpper(h)
				}
				q, err := pdumode.UnmarshalHexString(h)
				if err != nil {
					k.Fail("pdumode", "segment %d: %s: %v", i, h, err)
					return nil
				}
				b = q.TPDU
			} else {
				h, err := p.MarshalBinary()
				if err != nil {
					k.Fail("pdumode", "segment %d: %v", i, err)
					return nil
				}
				q, err := pdumode.UnmarshalBinary(h)
				if err != nil {
					k.Fail("pdumode", "segment %d: %x: %v", i, h, err)
					return nil
				}
				b = q.TPDU
			}
		}
		var t *tpdu.TPDU
		if pdus[i].Direction == tpdu.MO {
			t, err = sms.Unmarshal(b, sms.AsMO)
		} else if r.P(1, 2) {
			t, err = sms.Unmarshal(b, sms.AsMT)
		} else {
			t, err = sms.Unmarshal(b)
		}
		if err != nil {
			k.Fail("unmarshal", "segment %d: %x: %v", i, b, err)
			return nil
		}
		for j := range b { // the transport reuses its buffer
			b[j] = byte(r.Uint32())
		}
		out = append(out, t)
	}
	return out
}

// checkText decodes the complete set of segments.
func checkText(k *mon.Case, f *flight, segs []*tpdu.TPDU, opts ...sms.DecodeOption) {
	if !sms.IsCompleteMessage(segs) {
		k.Fail("incomplete", "collected segments are not recognised as complete: %s", f.desc)
	}
	got, err := sms.Decode(segs, opts...)
	if err != nil {
		k.Fail("decode", "%v: %s", err, f.desc)
		return
	}
	if !bytes.Equal(got, f.text) {
		k.Fail("text", "received %q, sent %q: %s", got, f.text, f.desc)
	}
}

// p01: end to end.
func p01(c *mon.Ctx) {
	c.Rule("one to five messages of every alphabet and language, and lengths concentrated about segment boundaries, encoded with random options, marshalled, optionally carried as pdumode binary or hex, unmarshalled, and the segments of all delivered to one Collector in random interleaved order with duplicates. Non-trivial: distinct messages with their segment counts.")
	history(c, histEncode(), histEncode(sms.WithAllCharsets), histDecode(), histComplete())
	c.Run("messages", c.N(1500), func(k *mon.Case) {
		r := k.R()
		coll := sms.NewCollector()
		defer coll.Close()
		var flights []*flight
		var shared *encCase
		var enc *sms.Encoder
		for n := r.Range(1, 5); n > 0; n-- {
			var e *encCase
			if shared != nil && r.P(1, 2) {
				// another message from the same encoder
				x := *shared
				e = &x
				e.genMsg(r, 1200)
			} else {
				e = genEnc(r)
				// a different number, so that those are distinct originators
				num := fmt.Sprintf("%d%s", n, genNumber(r))
				e.ctor = append(e.ctor, sms.To(num), sms.From(num))
				e.want.DA, e.want.OA = intlAddr(num), intlAddr(num)
				if !e.fn {
					// per-call addresses override: keep those out
					e.ctor = append(e.ctor, e.call...)
					e.ctor = append(e.ctor, sms.To(num), sms.From(num))
					e.call = nil
					shared, enc = e, e.encoder()
				}
			}
			p := e.plan()
			if p.Conflict || !consistent(&e.want) || len(p.UD) == 0 {
				c.Trivial()
				continue
			}
			text, ok := p.Text(e.msg)
			if !ok {
				c.Trivial()
				continue
			}
			var pdus []tpdu.TPDU
			var err error
			if e.fn {
				pdus, err = sms.Encode(e.msg, e.ctor...)
			} else {
				pdus, err = enc.Encode(e.msg)
			}
			k.Input("encoder", strings.Join(e.desc, " "), "fn", e.fn, "message", e.msg)
			if err != nil {
				k.Fail("encode", "does not encode: %v", err)
				continue
			}
			k.Seen("msg", e.msg, len(pdus))
			c.Count("segments", int64(len(pdus)))
			f := &flight{text: text, alpha: p.Alpha, sent: pdus, desc: fmt.Sprintf("%s message %q", strings.Join(e.desc, " "), e.msg)}
			// as encoded, without transmission
			var direct []*tpdu.TPDU
			for i := range pdus {
				direct = append(direct, &pdus[i])
			}
			checkText(k, f, direct)
			f.segs = transmit(k, r, pdus)
			if f.segs == nil {
				continue
			}
			flights = append(flights, f)
		}
		deliverAll(k, r, coll, flights)
	})
	// 16 bit references and raw segmentation
	c.Run("wide", c.N(400), func(k *mon.Case) {
		r := k.R()
		coll := sms.NewCollector()
		defer coll.Close()
		var flights []*flight
		base := r.IntN(65536)
		for n := r.Range(1, 3); n > 0; n-- {
			kind := pick(r, []int{ref.Submit, ref.Deliver})
			t := genTPDU(r, kind)
			t.UDH, t.UD = nil, nil
			t.FO &^= 0x40
			t.Addr = ref.Addr{TOA: 0x91, Text: fmt.Sprint(n, genNumber(r))}
			nlis := genNLIs(r)
			text := genText(r, r.IntN(kInvalid), pick(r, nlis), genLen(r, 2500))
			tp := toTPDU(t)
			ud, udh, alpha := tpdu.EncodeUserData([]byte(text), tpdu.WithCharset(nlis...))
			d, ok := ref.DCSWithAlpha(0, int(alpha))
			if !ok {
				k.Fail("alphabet", "encoded with alphabet %d", alpha)
				continue
			}
			tp.SetDCS(d)
			tp.SetUDH(udh)
			k.Input("text", text, "nlis", nlis)
			ctr := &fixedCounter{n: base + n}
			opts := []tpdu.SegmentationOption{tpdu.WithConcatRef(ctr)}
			if r.P(3, 4) {
				opts = append(opts, tpdu.With16BitConcatRef)
			}
			pdus := tp.Segment(ud, opts...)
			k.Seen("wide", text, len(pdus))
			f := &flight{text: []byte(text), sent: pdus, desc: fmt.Sprintf("message %q", text)}
			f.segs = transmit(k, r, pdus)
			if f.segs != nil {
				flights = append(flights, f)
			}
		}
		deliverAll(k, r, coll, flights)
	})
	// template headers which leave room for few characters, or none
	c.Run("cramped", c.N(800), func(k *mon.Case) {
		r := k.R()
		kind := pick(r, []int{ref.Submit, ref.Deliver})
		alpha := r.IntN(3)
		t := &ref.TPDU{Kind: kind}
		opts := []sms.EncoderOption{sms.To("12345"), sms.From("12345")}
		if kind == ref.Submit {
			opts = append(opts, sms.AsSubmit)
		} else {
			opts = append(opts, sms.AsDeliver)
		}
		room := r.Range(-4, 12)
		switch r.IntN(6) {
		case 0:
			room = r.Range(-100, 0)
		case 1:
			room = r.Range(1, 60)
		}
		udhl := 2
		for ref.BlockSize(kind, false, alpha, udhl+5) > room && udhl < 240 {
			udhl++
		}
		t.UDH = paddedUDH(r, udhl)
		opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(toUDH(t.UDH))))
		var msg []byte
		var nlis []int
		n := r.Range(1, 12)
		switch r.IntN(3) {
		case 0:
			n = r.Range(1, 60)
		case 1:
			n = max(1, ref.BlockSize(kind, false, alpha, udhl)+r.Range(-2, 3))
		}
		switch alpha {
		case ref.A7:
			msg = []byte(genText(r, kDefault, 0, n))
			if r.P(1, 3) {
				nlis = genNLIs(r)
				opts = append(opts, sms.WithCharset(nlis...))
				msg = []byte(genText(r, pick(r, []int{kLock, kShift, kBoth}), pick(r, nlis), n))
			}
		case ref.A8:
			opts = append(opts, sms.As8Bit)
			t.DCS = 4
			msg = r.Bytes(n)
		case ref.AUCS2:
			if r.P(1, 2) {
				opts = append(opts, sms.AsUCS2)
				t.DCS = 8
				msg = ref.EncodeUCS2(genText(r, pick(r, []int{kBMP, kAstral}), 0, n/2+1))
			} else {
				msg = []byte("中" + genText(r, pick(r, []int{kBMP, kAstral}), 0, n/2+1))
			}
		}
		p := ref.Encode(t, msg, nlis, nlis, false)
		udhl += ref.UDHLen(p.Lang)
		text, ok := p.Text(msg)
		if p.Conflict || !ok || len(p.UD) == 0 {
			c.Trivial()
			return
		}
		bs1 := ref.BlockSize(kind, false, p.Alpha, udhl)
		bs := ref.BlockSize(kind, false, p.Alpha, udhl+5)
		widest := 0
		for _, u := range ref.Units(p.UD, p.Alpha) {
			widest = max(widest, len(u))
		}
		k.Input("type", ref.TypeName[kind], "alpha", p.Alpha, "header", udhl, "room", bs1, "concatenated", bs, "message", msg)
		k.Seen("cramped", kind, ref.UDHBytes(t.UDH), msg)
		var pdus []tpdu.TPDU
		var err error
		if r.P(1, 2) {
			pdus, err = sms.Encode(msg, opts...)
		} else {
			pdus, err = sms.NewEncoder(opts...).Encode(msg)
		}
		if err != nil {
			if !errors.Is(err, sms.ErrOverlength) {
				k.Fail("error", "refused with %v, want %v", err, sms.ErrOverlength)
			}
			if pdus != nil {
				k.Fail("error", "%d TPDUs returned with %v", len(pdus), err)
			}
			if len(p.UD) <= bs1 || bs >= widest && len(p.Chunks) <= 255 {
				k.Fail("encode", "does not encode: %v", err)
			}
			c.Count("no_room", 1)
			return
		}
		if len(pdus) == 0 || len(pdus) > 255 {
			k.Fail("no-room", "a message is encoded as %d TPDUs", len(pdus))
			return
		}
		c.Count("segments", int64(len(pdus)))
		f := &flight{text: text, alpha: p.Alpha, sent: pdus, desc: fmt.Sprintf("message %q", msg)}
		if f.segs = transmit(k, r, pdus); f.segs == nil {
			return
		}
		coll := sms.NewCollector()
		defer coll.Close()
		deliverAll(k, r, coll, []*flight{f})
	})
	// as many segments as there can be
	c.Run("longest", min(c.N(6), 40), func(k *mon.Case) {
		r := k.R()
		coll := sms.NewCollector()
		defer coll.Close()
		kind, per := kDefault, 153
		if k.I%2 == 1 {
			kind, per = kBMP, 67
		}
		opts := []sms.EncoderOption{sms.To("12345")}
		if k.I >= 2 && r.P(2, 3) { // with a header
			h := paddedUDH(r, r.Range(2, 60))
			opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(toUDH(h))))
			left := 140 - 5 - len(ref.UDHBytes(h))
			per = left * 8 / 7
			if kind == kBMP {
				per = left / 2
			}
		}
		n := per * 255
		if k.I%3 == 1 {
			n -= r.IntN(per * 2)
		}
		text := genText(r, kind, 0, n)
		if kind == kBMP {
			text = "中" + string([]rune(text)[1:])
		}
		k.Input("text", text)
		pdus, err := sms.Encode([]byte(text), opts...)
		k.Seen("longest", text)
		if err != nil {
			k.Fail("encode", "does not encode: %v", err)
			return
		}
		f := &flight{text: []byte(text), sent: pdus, desc: "longest"}
		if f.segs = transmit(k, r, pdus); f.segs != nil {
			deliverAll(k, r, coll, []*flight{f})
		}
		for _, more := range []int{per * 2, per * 3, per * r.Range(2, 60), per * (256 + r.Range(0, 3)), per * 255 * r.Range(1, 4)} {
			pdus, err := sms.Encode([]byte(text+genText(r, kind, 0, more)), opts...)
			if !errors.Is(err, sms.ErrOverlength) || pdus != nil {
				k.Fail("overlength", "a message of %d beyond 255 segments gave %d TPDUs, %v", more, len(pdus), err)
			}
		}
	})
}

// paddedUDH generates a header with elements totalling exactly n octets.
func paddedUDH(r *mon.Rng, n int) (h []ref.IE) {
	for left := n; left > 0; {
		l := r.Range(0, left-2)
		if r.P(1, 2) {
			l = left - 2
		}
		if left-2-l == 1 {
			l++
		}
		h = append(h, ref.IE{ID: byte(r.Range(0x30, 0x9f)), Data: r.Bytes(l)})
		left -= 2 + l
	}
	return
}

type fixedCounter struct{ n int }

func (c *fixedCounter) Count() int { return c.n }

// deliverAll delivers the segments of the messages in random order, with
// duplicates, and checks each message as it completes.
func deliverAll(k *mon.Case, r *mon.Rng, coll *sms.Collector, flights []*flight) {
	type item struct {
		f   *flight
		i   int
		dup bool
	}
	var items []item
	style := r.IntN(4)
	for _, f := range flights {
		order := r.Perm(len(f.segs))
		switch style {
		case 0: // in order
			for i := range order {
				order[i] = i
			}
		case 1: // reversed
			for i := range order {
				order[i] = len(order) - 1 - i
			}
		}
		for _, i := range order {
			items = append(items, item{f, i, false})
		}
	}
	if style != 3 && len(flights) > 1 { // interleave
		r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	}
	left := map[*flight]int{}
	seen := map[*flight][]int{}
	for _, f := range flights {
		left[f] = len(f.segs)
	}
	for _, it := range items {
		segs, err := coll.Collect(*it.f.segs[it.i])
		if err != nil {
			k.Fail("collect", "segment %d rejected: %v: %s", it.i, err, it.f.desc)
			return
		}
		left[it.f]--
		seen[it.f] = append(seen[it.f], it.i)
		if left[it.f] > 0 {
			if segs != nil {
				k.Fail("early", "returned with %d missing: %s", left[it.f], it.f.desc)
				return
			}
			if r.P(1, 4) {
				d := pick(r, seen[it.f])
				if s, err := coll.Collect(*it.f.segs[d]); !errors.Is(err, sms.ErrDuplicateSegment) || s != nil {
					k.Fail("duplicate", "duplicate of segment %d gave %v, %v", d, s, err)
				}
				k.C.Count("duplicates", 1)
			}
			continue
		}
		if len(segs) != len(it.f.segs) {
			k.Fail("count", "returned %d segments of %d: %s", len(segs), len(it.f.segs), it.f.desc)
			return
		}
		it.f.done = true
		checkText(k, it.f, segs)
		k.C.Count("messages_reassembled", 1)
	}
	if p := coll.Pipes(); len(p) != 0 {
		k.Fail("residue", "segments remain after all messages completed: %v", p)
	}
}

// p02: segmentation.
func p02(c *mon.Ctx) {
	c.Rule("messages of lengths about every segment boundary, for all TPDU types, alphabets, template headers and reference widths, through the encoder and segmentation directly, against an independent division into characters. Non-trivial: distinct (type, alphabet, header, message).")
	history(c, histSegment(), histEncode(), histEncode(sms.As8Bit), histEncode(sms.AsUCS2))
	c.Run("encoder", c.N(3000), func(k *mon.Case) {
		r := k.R()
		e := genEnc(r)
		e.record(k)
		pdus, err := e.encode()
		if err != nil || len(pdus) == 0 {
			c.Trivial()
			return
		}
		k.Seen("enc", strings.Join(e.desc, " "), e.msg)
		c.Count("segments", int64(len(pdus)))
		alpha, _, _, _ := ref.DCS(byte(pdus[0].DCS))
		p := e.plan()
		ud := joinUD(pdus)
		if alpha == p.Alpha && !p.Conflict {
			ud = p.UD
		}
		udhl := 0
		for _, ie := range pdus[0].UDH {
			if ie.ID != 0 && ie.ID != 8 {
				udhl += 2 + len(ie.Data)
			}
		}
		if d := chunkDiff(e.model(), pdus, ud, alpha, udhl, false); d != "" {
			k.Fail("division", "%s", d)
		}
		if d := concatDiff(pdus, false, -1); d != "" {
			k.Fail("concat", "%s", d)
		}
	})
	c.Run("segment", c.N(6000), func(k *mon.Case) {
		r := k.R()
		kind := r.IntN(6)
		t := genTPDU(r, kind)
		t.UD, t.UDH = nil, nil
		if kind == ref.DeliverReport || kind == ref.SubmitReport {
			if r.P(1, 2) {
				t.FCS = 0
			}
		} else if r.P(1, 2) { // of no consequence
			t.FCS = byte(r.Uint32())
		}
		if r.P(1, 2) {
			t.ST, t.CT, t.MN, t.PID = byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32())
		}
		t.PI |= 4
		if kind == ref.Submit || kind == ref.Deliver || kind == ref.Command {
			t.PI = 0
		}
		t.FO &^= 0x40
		if r.P(1, 2) {
			t.UDH = genUDH(r, r.Range(1, 4), 100, false)
		}
		if len(t.UDH) > 0 {
			t.FO |= 0x40
		}
		alpha := r.IntN(3)
		t.DCS = pick(r, dcsFor[alpha])
		if kind == ref.Command && r.P(1, 2) {
			alpha, t.DCS = ref.A8, 4
		}
		wide := r.P(1, 2)
		udhl := ref.UDHLen(t.UDH)
		n := 5
		if wide {
			n = 6
		}
		bs1 := ref.BlockSize(kind, t.FCS != 0, alpha, udhl)
		bs := ref.BlockSize(kind, t.FCS != 0, alpha, udhl+n)
		if bs < 5 {
			c.Trivial()
			return
		}
		var l int
		switch r.IntN(5) {
		case 0:
			l = bs1 + r.Range(-3, 3)
		case 1:
			l = bs*r.Range(1, 6) + r.Range(-3, 3)
		case 2:
			l = r.Range(1, 2*bs)
		case 3:
			l = r.Range(1, 20*bs)
		default:
			l = r.Range(1, bs1+bs)
		}
		long := r.P(1, 25)
		if long { // about the most that can be numbered
			l = bs*r.Range(252, 257) + r.Range(-3, bs)
		}
		l = max(1, l)
		var ud []byte
		switch alpha {
		case ref.A7:
			ud = r.Bytes(l)
			dens := r.IntN(4)
			for i := range ud {
				ud[i] &= 0x7f
				if dens > 0 && r.P(dens, 4) {
					ud[i] = ref.Esc
				}
			}
		case ref.A8:
			ud = r.Bytes(l)
		case ref.AUCS2:
			ud = ref.EncodeUCS2(genText(r, pick(r, []int{kAstral, kAstral, kBMP}), 0, l/2+1))
			if r.P(1, 3) {
				var s []rune
				for i := 0; i < l/4+1; i++ {
					s = append(s, pick(r, astral))
				}
				if r.P(1, 2) {
					s = append([]rune{'a'}, s...)
				}
				ud = ref.EncodeUCS2(string(s))
			}
			if r.P(1, 8) && !long { // malformed
				ud = r.Bytes(len(ud))
				for i := 0; i < len(ud); i += 2 {
					ud[i] = 0xd8 | ud[i]&7
				}
			}
		}
		tp := toTPDU(t)
		var opts []tpdu.SegmentationOption
		cref := 1
		if r.P(1, 2) {
			cref = r.IntN(70000)
			opts = append(opts, tpdu.WithConcatRef(&fixedCounter{cref}))
		}
		if wide {
			opts = append(opts, tpdu.With16BitConcatRef)
		}
		k.Input("template", *t, "ud", ud, "wide", wide, "type", ref.TypeName[kind])
		if got := tp.UDBlockSize(); got != bs1 {
			k.Fail("blocksize", "block size is %d, want %d", got, bs1)
		}
		pdus := tp.Segment(ud, opts...)
		if multi, ch := ref.Split(t, ud, alpha, udhl, wide); multi && len(ch) > 255 {
			if len(pdus) != 0 {
				k.Fail("unnumbered", "divided into %d segments, of which %d can be numbered", len(pdus), 255)
			}
			c.Count("beyond_255", 1)
			return
		}
		k.Seen(kind, alpha, ref.UDHBytes(t.UDH), ud, wide)
		if d := chunkDiff(t, pdus, ud, alpha, udhl, wide); d != "" {
			k.Fail("division", "%s", d)
		}
		if d := concatDiff(pdus, wide, cref); d != "" {
			k.Fail("concat", "%s", d)
		}
		for i := range pdus {
			h := modelUDH(pdus[i].UDH)
			if len(pdus) > 1 {
				h = h[:len(h)-1]
			}
			if d := udhDiff(t.UDH, toUDH(h)); d != "" {
				k.Fail("header", "segment %d: %s", i, d)
			}
			// what is sent does not exceed what a TPDU of the type can carry
			if b, err := pdus[i].MarshalBinary(); err == nil && (kind == ref.Submit || kind == ref.Deliver) {
				hl := 0
				if x := pdus[i].UDHL(); x > 0 {
					hl = x + 1
				}
				o := hl + len(pdus[i].UD)
				if alpha == ref.A7 {
					o = (((hl*8+6)/7+len(pdus[i].UD))*7 + 7) / 8
				}
				if o > 140 || len(b) < o {
					k.Fail("overlength", "segment %d has %d octets of user data in %x", i, o, b)
				}
			}
		}
	})
	// headers which leave room for few characters, or none
	c.Run("cramped", c.N(3000), func(k *mon.Case) {
		r := k.R()
		kind := r.IntN(6)
		t := &ref.TPDU{Kind: kind, FO: byte(kind>>1) | 0x40, PI: 4, DCS: 0}
		if kind == ref.DeliverReport || kind == ref.SubmitReport {
			t.FCS = byte(r.IntN(2))
		}
		alpha := r.IntN(3)
		t.DCS = pick(r, dcsFor[alpha])
		wide := r.P(1, 2)
		n := 5
		if wide {
			n = 6
		}
		room := r.Range(-4, 10)
		if r.P(1, 8) {
			room = r.Range(-90, 0)
		}
		udhl := 2
		for ref.BlockSize(kind, t.FCS != 0, alpha, udhl+n) > room && udhl < 240 {
			udhl++
		}
		t.UDH = paddedUDH(r, udhl)
		bs1 := ref.BlockSize(kind, t.FCS != 0, alpha, udhl)
		bs := ref.BlockSize(kind, t.FCS != 0, alpha, udhl+n)
		l := max(1, bs1+r.Range(-3, 40))
		var ud []byte
		switch alpha {
		case ref.A7:
			esc := r.IntN(3)
			for len(ud) < l {
				if esc > 0 && r.P(esc, 6) {
					ud = append(ud, ref.Esc, 0x65)
				} else {
					ud = append(ud, byte(r.Range(0x20, 0x7a))&^0x1b|0x20)
				}
			}
		case ref.A8:
			ud = r.Bytes(l)
		default:
			for i := 0; i < l/2+1; i++ {
				if r.P(1, 5) {
					ud = append(ud, ref.EncodeUCS2(string(pick(r, astral)))...)
				} else {
					ud = append(ud, 0, byte(r.Range(0x30, 0x7a)))
				}
			}
		}
		k.Input("type", ref.TypeName[kind], "alpha", alpha, "header", udhl, "wide", wide, "room", bs1, "concatenated", bs, "ud", ud)
		widest := 0
		for _, u := range ref.Units(ud, alpha) {
			widest = max(widest, len(u))
		}
		tp := toTPDU(t)
		if got := tp.UDBlockSize(); got != bs1 && (got > 0 || bs1 > 0) {
			k.Fail("blocksize", "block size is %d, want %d", got, bs1)
		}
		multi, ch := false, [][]byte(nil)
		if len(ud) <= bs1 || bs > 0 {
			multi, ch = ref.Split(t, ud, alpha, udhl, wide)
		}
		var opts []tpdu.SegmentationOption
		if wide {
			opts = append(opts, tpdu.With16BitConcatRef)
		}
		pdus := tp.Segment(ud, opts...)
		if multi && len(ch) > 255 && bs >= widest {
			if len(pdus) != 0 {
				k.Fail("unnumbered", "divided into %d segments, of which %d can be numbered", len(pdus), 255)
			}
			c.Count("beyond_255", 1)
			return
		}
		k.Seen("cramped", kind, alpha, ref.UDHBytes(t.UDH), ud, wide)
		if len(ud) > bs1 && bs < widest {
			// there may be room, if the wide characters happen to fit whole
			if len(pdus) == 0 {
				c.Count("no_room", 1)
				return
			}
			if bs < 1 {
				k.Fail("no-room", "%d segments, without room for any", len(pdus))
				return
			}
			if got := joinUD(pdus); !bytes.Equal(got, ud) {
				k.Fail("division", "the segments together contain %x", got)
			}
			for i := range pdus {
				if len(pdus[i].UD) > bs || len(pdus[i].UD) == 0 {
					k.Fail("division", "segment %d contains %d of a maximum of %d", i, len(pdus[i].UD), bs)
				}
			}
			for i, u := range ref.Units(ud, alpha) {
				if len(u) > bs {
					k.Fail("division", "character %d (%x) is divided", i, u)
					break
				}
			}
			return
		}
		if d := chunkDiff(t, pdus, ud, alpha, udhl, wide); d != "" {
			k.Fail("division", "%s", d)
		}
		if d := concatDiff(pdus, wide, 1); d != "" {
			k.Fail("concat", "%s", d)
		}
		c.Count("cramped", 1)
	})
	c.Run("empty", 64, func(k *mon.Case) {
		r := k.R()
		t := toTPDU(genTPDU(r, k.I%6))
		k.Seen("empty", fmt.Sprint(*t))
		for _, m := range [][]byte{nil, {}} {
			if pdus := t.Segment(m); len(pdus) != 0 {
				k.Fail("empty", "segmenting nothing gave %v", pdus)
			}
			if pdus, err := sms.Encode(m); err != nil || len(pdus) != 0 {
				k.Fail("empty", "encoding nothing gave %v, %v", pdus, err)
			}
		}
	})
	// every length about the boundaries
	c.Run("lengths", 3*2*200, func(k *mon.Case) {
		alpha := k.I % 3
		typ := []sms.EncoderOption{sms.AsSubmit, sms.AsDeliver}[k.I/3%2]
		n := k.I / 6
		k.Input("alpha", alpha, "n", n)
		k.Seen("len", k.I)
		for _, base := range []int{1, 254, 400} {
			l := base + n
			var msg []byte
			opts := []sms.EncoderOption{typ}
			switch alpha {
			case ref.A7:
				msg = bytes.Repeat([]byte("a"), l)
			case ref.A8:
				msg = bytes.Repeat([]byte("a"), l)
				opts = append(opts, sms.As8Bit)
			case ref.AUCS2:
				msg = []byte(strings.Repeat("中", l))
			}
			ud := msg
			if alpha == ref.AUCS2 {
				ud = ref.EncodeUCS2(string(msg))
			}
			pdus, err := sms.Encode(msg, opts...)
			if err != nil {
				k.Fail("lengths", "%d characters: %v", l, err)
				continue
			}
			if d := chunkDiff(&ref.TPDU{Kind: ref.Submit}, pdus, ud, alpha, 0, false); d != "" {
				k.Fail("lengths", "%d characters: %s", l, d)
			}
			if d := concatDiff(pdus, false, 1); d != "" {
				k.Fail("lengths", "%d characters: %s", l, d)
			}
		}
	})
	c.Exhaustive("lengths 1 to 600 of each alphabet for SMS-SUBMIT and SMS-DELIVER")
}

// fieldDiff checks that a TPDU has the fields of the template, other than
// those which are determined by the message.
func fieldDiff(want *tpdu.TPDU, got *tpdu.TPDU) string {
	w, g := *want, *got
	w.MR, g.MR = 0, 0
	w.UD, g.UD, w.UDH, g.UDH = nil, nil, nil, nil
	w.PI, g.PI = w.PI&^6, g.PI&^6
	// the alphabet is determined by the message
	if x, ok := ref.DCSWithAlpha(byte(w.DCS), 0); ok {
		if y, ok := ref.DCSWithAlpha(byte(g.DCS), 0); ok {
			w.DCS, g.DCS = tpdu.DCS(x), tpdu.DCS(y)
		}
	}
	if g.UDHL() == 0 && got.UDHL() > 0 {
		w.FirstOctet |= 0x40
	}
	if len(got.UDH) == 0 {
		w.FirstOctet &^= 0x40
	}
	return same(&w, &g)
}

// headDiff checks that the header starts with the template's, and that what
// follows are only the permitted elements.
func headDiff(want, got tpdu.UserDataHeader) string {
	if len(got) < len(want) {
		return fmt.Sprintf("header is %v, want %v first", got, want)
	}
	if d := udhDiff(modelUDH(want), got[:len(want)]); d != "" {
		return d
	}
	for _, ie := range got[len(want):] {
		switch ie.ID {
		case 0, 8, 24, 25:
		default:
			return fmt.Sprintf("additional element %v", ie)
		}
	}
	return ""
}

// p03: template.
func p03(c *mon.Ctx) {
	c.Rule("templates of all types with random fields, given as a whole or built up from random sequences of options to the constructor and to the call, with messages of all alphabets, several per Encoder. Non-trivial: distinct (options, message).")
	history(c, histEncode(sms.AsDeliver, sms.From("1234"), sms.WithAllCharsets), histEncode(sms.To("+5678"), sms.As8Bit), histEncode(sms.AsUCS2))
	chk := func(k *mon.Case, want *tpdu.TPDU, pdus []tpdu.TPDU) {
		for i := range pdus {
			if d := fieldDiff(want, &pdus[i]); d != "" {
				k.Fail("fields", "segment %d of %d differs from the template: %s", i+1, len(pdus), d)
			}
			if d := headDiff(want.UDH, pdus[i].UDH); d != "" {
				k.Fail("header", "segment %d of %d: %s", i+1, len(pdus), d)
			}
			if pdus[i].UDHI() != (len(pdus[i].UDH) > 0) {
				k.Fail("udhi", "segment %d indicates a header %v but has %v", i+1, pdus[i].UDHI(), pdus[i].UDH)
			}
			if pdus[i].PI&^6 != want.PI&^6 || want.PI&^pdus[i].PI != 0 {
				k.Fail("pi", "segment %d has PI %02x, template %02x", i+1, byte(pdus[i].PI), byte(want.PI))
			}
		}
	}
	c.Run("encoder", c.N(2500), func(k *mon.Case) {
		r := k.R()
		e := genEncOf(r, pick(r, [][]int{optAny, optAll}))
		var enc *sms.Encoder
		if !e.fn {
			enc = e.encoder()
		}
		base := e
		for n := 0; n < 3; n++ {
			k.Reset()
			e.record(k)
			var pdus []tpdu.TPDU
			var err error
			if e.fn {
				pdus, err = sms.Encode(e.msg, e.ctor...)
			} else {
				pdus, err = enc.Encode(e.msg, e.call...)
			}
			p := e.plan()
			k.Seen(strings.Join(e.desc, " "), e.msg)
			if p.Conflict {
				c.Count("conflicts", 1)
				if len(e.msg) > 0 && (!errors.Is(err, sms.ErrDcsConflict) || pdus != nil) {
					k.Fail("conflict", "DCS %02x, which cannot carry the message, gave %d TPDUs, %v", byte(e.want.DCS), len(pdus), err)
				}
			} else if err != nil {
				k.Fail("encode", "DCS %02x does not encode: %v", byte(e.want.DCS), err)
			} else {
				chk(k, &e.want, pdus)
				for i := range pdus {
					if byte(pdus[i].DCS) != p.DCS {
						k.Fail("dcs", "segment %d of %d has DCS %02x, want %02x (template %02x)", i+1, len(pdus), byte(pdus[i].DCS), p.DCS, byte(e.want.DCS))
					}
					var lang []ref.IE
					for _, ie := range modelUDH(pdus[i].UDH)[min(len(e.want.UDH), len(pdus[i].UDH)):] {
						if ie.ID == 24 || ie.ID == 25 {
							lang = append(lang, ie)
						}
					}
					if d := udhDiff(p.Lang, toUDH(lang)); d != "" {
						k.Fail("language", "segment %d of %d: %s", i+1, len(pdus), d)
					}
					if n := len(pdus[i].UDH) - len(e.want.UDH) - len(lang); n != min(len(pdus)-1, 1) {
						k.Fail("header", "segment %d of %d has %v, added to %v", i+1, len(pdus), pdus[i].UDH, e.want.UDH)
					}
				}
			}
			// another message with the same configuration
			x := *base
			e = &x
			e.genMsg(r, 600)
		}
	})
	c.Run("segment", c.N(3000), func(k *mon.Case) {
		r := k.R()
		kind := r.IntN(6)
		t := genTPDU(r, kind)
		t.UDH = nil
		t.FO &^= 0x40
		if r.P(1, 2) {
			if t.UDH = genUDH(r, r.Range(1, 3), 60, false); len(t.UDH) > 0 {
				t.FO |= 0x40
			}
		}
		t.PI |= 4
		tp := toTPDU(t)
		orig := cloneTPDU(tp)
		alpha, _, _, _ := ref.DCS(t.DCS)
		msg := r.Bytes(genLen(r, 1500))
		if alpha == ref.AUCS2 {
			msg = ref.EncodeUCS2(genText(r, kAstral, 0, genLen(r, 600)))
		}
		k.Input("template", *t, "msg", msg)
		k.Seen("seg", kind, fmt.Sprint(*t), len(msg))
		pdus := tp.Segment(msg)
		for i := range pdus {
			if pdus[i].MR != orig.MR || pdus[i].DCS != orig.DCS {
				k.Fail("fields", "segment %d has MR %d DCS %v", i+1, pdus[i].MR, pdus[i].DCS)
			}
		}
		chk(k, orig, pdus)
		if d := same(tp, orig); d != "" {
			k.Fail("template-modified", "%s", d)
		}
	})
	// mutating what is returned does not alter what is produced later
	c.Run("reuse", c.N(800), func(k *mon.Case) {
		r := k.R()
		e := genEncoder(r)
		e.record(k)
		enc := e.encoder()
		a, err := enc.Encode(e.msg, e.call...)
		if err != nil || len(a) == 0 {
			c.Trivial()
			return
		}
		var copies []*tpdu.TPDU
		for i := range a {
			copies = append(copies, cloneTPDU(&a[i]))
		}
		k.Seen("reuse", strings.Join(e.desc, " "), e.msg)
		x := *e
		x.genMsg(r, 800)
		other, _ := enc.Encode(x.msg, e.call...)
		for i := range a {
			if d := same(&a[i], copies[i]); d != "" {
				k.Fail("earlier-modified", "segment %d changed when another message was encoded: %s", i, d)
			}
		}
		for i := range other {
			other[i].UDH = append(other[i].UDH, tpdu.InformationElement{ID: 0x77})
			other[i].FirstOctet ^= 0xff
			other[i].DCS ^= 0xff
			other[i].MR ^= 0xff
		}
		b, err := enc.Encode(e.msg, e.call...)
		if err != nil || len(a) != len(b) {
			k.Fail("repeat", "encoding the same message again gave %d, %v, want %d", len(b), err, len(a))
			return
		}
		for i := range b {
			g := *cloneTPDU(&b[i])
			w := *copies[i]
			g.MR, w.MR = 0, 0
			if len(b) > 1 {
				g.UDH, w.UDH = g.UDH[:len(g.UDH)-1], w.UDH[:len(w.UDH)-1]
			}
			if d := same(&w, &g); d != "" {
				k.Fail("repeat", "segment %d of the same message differs: %s", i, d)
			}
		}
	})
}
