package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"

	"verifharness/mon"
	"verifharness/ref"
)

// encCase is a generated configuration of the encoder and a message, along
// with an independent model of what the configuration means.
type encCase struct {
	fn         bool // use sms.Encode rather than an Encoder
	ctor, call []sms.EncoderOption
	desc       []string
	want       tpdu.TPDU // the template which the options describe
	locking    []int
	shift      []int
	msg        []byte
	base       encModel // what the constructor's options describe
	kind       int      // kind of text, or -1
	nli        int
}

// ownOption is a template option which the library knows nothing about.
type ownOption func(*tpdu.TPDU)

func (o ownOption) ApplyTPDUOption(t *tpdu.TPDU) error {
	o(t)
	return nil
}

// encoder state being modelled while options are generated.
type encModel struct {
	want           tpdu.TPDU
	locking, shift []int
}

func setKind(t *tpdu.TPDU, kind int) {
	t.Direction = tpdu.Direction(kind & 1)
	t.FirstOctet = t.FirstOctet&^3 | tpdu.FirstOctet(kind>>1)
}

func intlAddr(n string) tpdu.Address {
	return tpdu.Address{TOA: 0x91, Addr: strings.TrimPrefix(n, "+")}
}

// optNumber generates a number for To or From.
func optNumber(r *mon.Rng) string {
	n := genNumber(r)
	if r.P(1, 8) {
		n = genDigits(r, pick(r, []int{0, 1, 16, 20, 21, 22, 30, 127, 128, 254, 255}))
	}
	if r.P(1, 2) {
		n = "+" + n
	}
	return n
}

// genOption generates an option and applies its meaning to the model.
func genOption(r *mon.Rng, m *encModel, kinds []int) (sms.EncoderOption, string) {
	switch kinds[r.IntN(len(kinds))] {
	case 0:
		setKind(&m.want, ref.Submit)
		return sms.AsSubmit, "AsSubmit"
	case 1:
		setKind(&m.want, ref.Deliver)
		return sms.AsDeliver, "AsDeliver"
	case 2:
		n := optNumber(r)
		m.want.DA = intlAddr(n)
		return sms.To(n), "To(" + n + ")"
	case 3:
		n := optNumber(r)
		m.want.OA = intlAddr(n)
		return sms.From(n), "From(" + n + ")"
	case 4:
		m.want.DCS, m.want.PI = 4, m.want.PI|2
		return sms.As8Bit, "As8Bit"
	case 5:
		m.want.DCS, m.want.PI = 8, m.want.PI|2
		return sms.AsUCS2, "AsUCS2"
	case 6:
		d := pick(r, dcsFor[ref.A7])
		if r.P(1, 12) {
			d = byte(r.Uint32())
		} else if d&0x80 != 0 && r.P(3, 4) { // prefer those which permit UCS2
			d &= 0x7f
			d &^= 0x0c
		}
		m.want.DCS, m.want.PI = tpdu.DCS(d), m.want.PI|2
		return sms.WithTemplateOption(tpdu.DCS(d)), fmt.Sprintf("DCS(%02x)", d)
	case 7:
		h := genUDH(r, r.Range(1, 3), 60, false)
		if r.P(1, 8) {
			h = nil
		}
		m.want.UDH = toUDH(h)
		if len(h) > 0 {
			m.want.FirstOctet |= 0x40
			m.want.PI |= 4
		} else {
			m.want.FirstOctet &^= 0x40
		}
		return sms.WithTemplateOption(tpdu.WithUDH(toUDH(h))), fmt.Sprintf("UDH(%v)", h)
	case 8:
		a := genAddr(r)
		g := tpdu.Address{TOA: a.TOA, Addr: a.Text}
		m.want.DA = g
		return sms.WithTemplateOption(tpdu.WithDA(g)), fmt.Sprintf("DA(%v)", a)
	case 9:
		a := genAddr(r)
		g := tpdu.Address{TOA: a.TOA, Addr: a.Text}
		m.want.OA = g
		return sms.WithTemplateOption(tpdu.WithOA(g)), fmt.Sprintf("OA(%v)", a)
	case 10:
		kind := pick(r, []int{ref.Deliver, ref.Submit})
		t := genTPDU(r, kind)
		t.UD = nil
		if r.P(1, 3) {
			t.UD = []byte("leftover")
		}
		t.UDH = nil
		t.FO &^= 0x40
		if r.P(1, 3) {
			t.UDH = genUDH(r, r.Range(1, 3), 60, false)
			if len(t.UDH) > 0 {
				t.FO |= 0x40
			}
		}
		if r.P(3, 4) {
			t.DCS = pick(r, []byte{0, 0, 0x10, 0x11, 0x13, 0x40, 0x51, 0xf1, 0xf0})
		} else if r.P(1, 2) {
			t.DCS = pick(r, dcsFor[ref.A7])
		}
		m.want = *toTPDU(t)
		if r.P(1, 4) {
			m.want.PI = tpdu.PI(r.Uint32())
		}
		return sms.WithTemplate(*cloneTPDU(&m.want)), fmt.Sprintf("Template(%+v)", *t)
	case 11:
		for n := 1; n < 14; n++ {
			m.locking = append(m.locking, n)
			m.shift = append(m.shift, n)
		}
		return sms.WithAllCharsets, "WithAllCharsets"
	case 12:
		return sms.WithDefaultCharset, "WithDefaultCharset"
	case 13:
		n := genNLIs(r)
		m.locking = append(m.locking, n...)
		m.shift = append(m.shift, n...)
		return sms.WithCharset(n...), fmt.Sprintf("WithCharset(%v)", n)
	case 14:
		n := genNLIs(r)
		m.locking = append(m.locking, n...)
		return sms.WithLockingCharset(n...), fmt.Sprintf("WithLockingCharset(%v)", n)
	case 16:
		// a period, set by an option of the caller's own
		v := genVP(r)
		m.want.FirstOctet = m.want.FirstOctet&^0x18 | tpdu.FirstOctet(v.Format)<<3
		m.want.VP = rawVP(v)
		return sms.WithTemplateOption(ownOption(func(t *tpdu.TPDU) { t.SetVP(toVP(v)) })), fmt.Sprintf("SetVP(%+v)", v)
	case 17:
		p := byte(r.Uint32())
		m.want.PID, m.want.PI = p, m.want.PI|1
		return sms.WithTemplateOption(ownOption(func(t *tpdu.TPDU) { t.SetPID(p) })), fmt.Sprintf("SetPID(%02x)", p)
	case 18:
		// direction, message type and type, each leaving the rest as it is
		n := r.IntN(6)
		switch r.IntN(3) {
		case 0:
			m.want.Direction = tpdu.Direction(n & 1)
			return sms.WithTemplateOption(tpdu.Direction(n & 1)), fmt.Sprintf("Direction(%d)", n&1)
		case 1:
			m.want.FirstOctet = m.want.FirstOctet&^3 | tpdu.FirstOctet(n>>1)
			return sms.WithTemplateOption(tpdu.MessageType(n >> 1)), fmt.Sprintf("MessageType(%d)", n>>1)
		}
		setKind(&m.want, n)
		return sms.WithTemplateOption(tpdu.SmsType(n)), fmt.Sprintf("SmsType(%d)", n)
	case 19:
		// a template built from options
		t := tpdu.TPDU{OA: tpdu.Address{TOA: 0x80}, DA: tpdu.Address{TOA: 0x80}, RA: tpdu.Address{TOA: 0x80}}
		kind := r.IntN(6)
		opts := []tpdu.Option{}
		desc := fmt.Sprintf("New(%d", kind)
		setKind(&t, kind)
		a, b := genAddr(r), genAddr(r)
		if r.P(2, 3) {
			t.DA = tpdu.Address{TOA: a.TOA, Addr: a.Text}
			opts = append(opts, tpdu.WithDA(t.DA))
			desc += fmt.Sprintf(" DA(%v)", a)
		}
		if r.P(2, 3) {
			t.OA = tpdu.Address{TOA: b.TOA, Addr: b.Text}
			opts = append(opts, tpdu.WithOA(t.OA))
			desc += fmt.Sprintf(" OA(%v)", b)
		}
		if r.P(1, 2) {
			h := genUDH(r, r.Range(1, 3), 60, false)
			t.UDH = toUDH(h)
			if len(h) > 0 {
				t.FirstOctet |= 0x40
				t.PI |= 4
			}
			opts = append(opts, tpdu.WithUDH(toUDH(h)))
			desc += fmt.Sprintf(" UDH(%v)", h)
		}
		if r.P(1, 2) {
			d := pick(r, dcsFor[ref.A7])
			t.DCS, t.PI = tpdu.DCS(d), t.PI|2
			opts = append(opts, t.DCS)
			desc += fmt.Sprintf(" DCS(%02x)", d)
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		var p *tpdu.TPDU
		var err error
		switch {
		case kind == ref.Submit && r.P(2, 3):
			p, err = tpdu.NewSubmit(opts...)
		case kind == ref.Deliver && r.P(2, 3):
			p, err = tpdu.NewDeliver(opts...)
		default:
			p, err = tpdu.New(append([]tpdu.Option{tpdu.SmsType(kind)}, opts...)...)
		}
		if err != nil {
			panic(fmt.Sprintf("template of %s: %v", desc, err))
		}
		m.want = t
		return sms.WithTemplate(*p), desc + ")"
	default:
		n := genNLIs(r)
		m.shift = append(m.shift, n...)
		return sms.WithShiftCharset(n...), fmt.Sprintf("WithShiftCharset(%v)", n)
	}
}

func genNLIs(r *mon.Rng) []int {
	var n []int
	if r.P(1, 8) { // long and repetitive
		few := []int{r.Range(1, 13), r.Range(1, 13), r.Range(1, 13)}
		for i := pick(r, []int{5, 13, 14, 40, 300}); i > 0; i-- {
			n = append(n, pick(r, few))
		}
	}
	for i := r.Range(1, 3); i > 0; i-- {
		n = append(n, r.Range(1, 13))
	}
	return n
}

var (
	optAny      = []int{0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 10, 10, 11, 12, 13, 13, 14, 15}
	optAll      = append([]int{16, 16, 17, 17, 18, 18, 19, 19}, optAny...)
	optCharset  = []int{11, 12, 13, 13, 14, 15}
	optEnvelope = []int{0, 1, 2, 3, 7, 8, 9, 10, 6}
)

// genEnc generates an encoder configuration and a message for it.
func genEnc(r *mon.Rng) *encCase { return genEncOf(r, optAny) }

func genEncOf(r *mon.Rng, any []int) *encCase {
	e := &encCase{}
	m := &encModel{}
	e.fn = r.P(1, 3)
	if e.fn {
		setKind(&m.want, ref.Submit)
	}
	gen := func(kinds []int, n int) (opts []sms.EncoderOption) {
		for i := 0; i < n; i++ {
			o, d := genOption(r, m, kinds)
			opts = append(opts, o)
			e.desc = append(e.desc, d)
		}
		return
	}
	kinds := any
	switch r.IntN(4) {
	case 0:
		kinds = append(append([]int{}, optCharset...), 0, 1, 2, 3)
	case 1:
		kinds = append(append([]int{}, optCharset...), optEnvelope...)
	}
	e.ctor = gen(kinds, r.IntN(5))
	e.base = encModel{m.want, append([]int{}, m.locking...), append([]int{}, m.shift...)}
	if !e.fn && r.P(1, 2) {
		e.desc = append(e.desc, "|call:")
		e.call = gen(kinds, r.IntN(3))
	}
	e.want, e.locking, e.shift = m.want, m.locking, m.shift
	e.genMsg(r, 2600)
	return e
}

// genEncoder is genEnc but always for an Encoder.
func genEncoder(r *mon.Rng) *encCase {
	for {
		if e := genEnc(r); !e.fn {
			return e
		}
	}
}

// genMsg generates a message suited to the configuration.
func (e *encCase) genMsg(r *mon.Rng, max int) {
	alpha, _, _, _ := ref.DCS(byte(e.want.DCS))
	e.kind = -1
	n := genLen(r, max)
	switch alpha {
	case ref.A8:
		e.msg = r.Bytes(n)
		if n > 0 && r.P(1, 2) { // ends which could be taken for padding
			for i := r.Range(1, min(n, 3)); i > 0; i-- {
				e.msg[n-i] = pick(r, []byte{0, 0, 0x1b, 0xff, 0x20, 0x0d})
			}
		}
		return
	case ref.AUCS2:
		e.kind = pick(r, []int{kDefault, kBMP, kAstral, kAstral, kMixed})
		e.msg = ref.EncodeUCS2(genText(r, e.kind, r.IntN(14), n/2+1))
		if r.P(1, 6) && len(e.msg) > 8 { // unpaired surrogates
			for i := r.Range(1, 3); i > 0; i-- {
				e.msg[r.IntN(len(e.msg)/2)*2] = 0xd8 + byte(r.IntN(8))
			}
		}
		return
	}
	e.kind = r.IntN(kKinds)
	e.nli = r.IntN(14)
	if len(e.locking) > 0 && r.P(2, 3) {
		e.nli = pick(r, e.locking)
		e.kind = pick(r, []int{kLock, kBoth, kLock, kShift})
	}
	if len(e.shift) > 0 && r.P(1, 3) {
		e.nli = pick(r, e.shift)
		e.kind = pick(r, []int{kShift, kBoth})
	}
	e.msg = []byte(genText(r, e.kind, e.nli, n))
}

func (e *encCase) record(k *mon.Case) {
	k.Input("encoder", strings.Join(e.desc, " "), "sms.Encode", e.fn, "message", e.msg)
}

// newEncoder builds the Encoder.
func (e *encCase) encoder() *sms.Encoder { return sms.NewEncoder(e.ctor...) }

func (e *encCase) encode() ([]tpdu.TPDU, error) {
	if e.fn {
		return sms.Encode(e.msg, e.ctor...)
	}
	return e.encoder().Encode(e.msg, e.call...)
}

func modelUDH(u tpdu.UserDataHeader) []ref.IE {
	var h []ref.IE
	for _, ie := range u {
		h = append(h, ref.IE{ID: ie.ID, Data: ie.Data})
	}
	return h
}

// model returns the model of the template, as is necessary to plan encoding.
func (e *encCase) model() *ref.TPDU { return modelOf(&e.want) }

func modelOf(t *tpdu.TPDU) *ref.TPDU {
	return &ref.TPDU{
		Kind: int(t.FirstOctet&3)<<1 | int(t.Direction&1),
		FO:   byte(t.FirstOctet), DCS: byte(t.DCS), FCS: t.FCS, UDH: modelUDH(t.UDH),
	}
}

// plan returns the expected encoding.
func (e *encCase) plan() ref.Plan {
	return ref.Encode(e.model(), e.msg, e.locking, e.shift, false)
}

// wellFormed is true if every surrogate is paired.
func wellFormed(ud []byte) bool {
	for i := 0; i+1 < len(ud); i += 2 {
		switch ud[i] & 0xfc {
		case 0xd8:
			if i+3 >= len(ud) || ud[i+2]&0xfc != 0xdc {
				return false
			}
			i += 2
		case 0xdc:
			return false
		}
	}
	return len(ud)%2 == 0
}

func joinUD(pdus []tpdu.TPDU) []byte {
	var b []byte
	for i := range pdus {
		b = append(b, pdus[i].UD...)
	}
	return b
}

// chunkDiff checks the division of user data amongst TPDUs, given the number
// of octets of information elements in the header, other than concatenation.
func chunkDiff(t *ref.TPDU, pdus []tpdu.TPDU, ud []byte, alpha, udhl int, wide bool) string {
	if got := joinUD(pdus); !bytes.Equal(got, ud) {
		return fmt.Sprintf("the segments together contain %x, want %x", got, ud)
	}
	multi, want := ref.Split(t, ud, alpha, udhl, wide)
	if len(pdus) == 0 && len(ud) == 0 {
		return ""
	}
	bs := ref.BlockSize(t.Kind, t.FCS != 0, alpha, udhl)
	if !multi {
		if len(pdus) != 1 {
			return fmt.Sprintf("split into %d, though %d fits in one of %d", len(pdus), len(ud), bs)
		}
		if pdus[0].UDHL() != udhl {
			return fmt.Sprintf("single segment has a header of %d octets, want %d: %v", pdus[0].UDHL(), udhl, pdus[0].UDH)
		}
		return ""
	}
	if wide {
		udhl += 6
	} else {
		udhl += 5
	}
	bs = ref.BlockSize(t.Kind, t.FCS != 0, alpha, udhl)
	for i := range pdus {
		p := &pdus[i]
		if p.UDHL() != udhl {
			return fmt.Sprintf("segment %d has a header of %d octets, want %d: %v", i, p.UDHL(), udhl, p.UDH)
		}
		if len(p.UD) > bs || len(p.UD) == 0 {
			return fmt.Sprintf("segment %d contains %d of a maximum of %d", i, len(p.UD), bs)
		}
	}
	if alpha == ref.AUCS2 && !wellFormed(ud) {
		// whether an unpaired surrogate is kept with its neighbour is not
		// specified, but pairs are never split.
		off := 0
		for i := range pdus[:len(pdus)-1] {
			off += len(pdus[i].UD)
			if off%2 == 1 {
				return fmt.Sprintf("segment %d ends within a character", i)
			}
			if ud[off-2]&0xfc == 0xd8 && off+1 < len(ud) && ud[off]&0xfc == 0xdc {
				return fmt.Sprintf("segment %d ends within a surrogate pair", i)
			}
			if n := len(pdus[i].UD); n < bs-2 {
				return fmt.Sprintf("segment %d contains only %d of %d", i, n, bs)
			}
		}
		return ""
	}
	if len(pdus) != len(want) {
		return fmt.Sprintf("split into %d, want %d", len(pdus), len(want))
	}
	for i := range pdus {
		if !bytes.Equal(pdus[i].UD, want[i]) {
			return fmt.Sprintf("segment %d contains %x, want %x", i, []byte(pdus[i].UD), want[i])
		}
	}
	return ""
}

// concatDiff checks the concatenation elements of a set of TPDUs.
func concatDiff(pdus []tpdu.TPDU, wide bool, cref int) string {
	if len(pdus) < 2 {
		for i := range pdus {
			for _, ie := range pdus[i].UDH {
				if ie.ID == 0 || ie.ID == 8 {
					return fmt.Sprintf("single segment has concatenation element %v", ie)
				}
			}
		}
		return ""
	}
	for i := range pdus {
		var found []tpdu.InformationElement
		for _, ie := range pdus[i].UDH {
			if ie.ID == 0 || ie.ID == 8 {
				found = append(found, ie)
			}
		}
		if len(found) != 1 {
			return fmt.Sprintf("segment %d has concatenation elements %v", i, found)
		}
		d := found[0].Data
		if wide {
			if found[0].ID != 8 || len(d) != 4 {
				return fmt.Sprintf("segment %d has concatenation element %v", i, found[0])
			}
			if cref < 0 {
				cref = int(d[0])<<8 | int(d[1])
			}
			if int(d[0]) != cref>>8&0xff || int(d[1]) != cref&0xff {
				return fmt.Sprintf("segment %d has reference %v, want %d", i, d[:2], cref)
			}
			d = d[2:]
		} else {
			if found[0].ID != 0 || len(d) != 3 {
				return fmt.Sprintf("segment %d has concatenation element %v", i, found[0])
			}
			if cref < 0 {
				cref = int(d[0])
			}
			if int(d[0]) != cref&0xff {
				return fmt.Sprintf("segment %d has reference %d, want %d", i, d[0], cref)
			}
			d = d[1:]
		}
		if int(d[0]) != len(pdus) || int(d[1]) != i+1 {
			return fmt.Sprintf("segment %d of %d is marked %d of %d", i+1, len(pdus), d[1], d[0])
		}
		if !pdus[i].UDHI() {
			return fmt.Sprintf("segment %d does not indicate it has a header", i+1)
		}
	}
	return ""
}
