package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	Reg["P04"] = p04
	Reg["P05"] = p05
}

// logCounter is a counter which records its use.
type logCounter struct {
	n     atomic.Int64
	calls atomic.Int64
}

func (c *logCounter) Count() int {
	c.calls.Add(1)
	return int(c.n.Add(1))
}

func concatRef(t *tpdu.TPDU) (int, bool) {
	_, _, m, ok := ref.Concat(modelUDH(t.UDH))
	return m, ok
}

// counters is an option supplying counters.
type counters struct{ mr, cr tpdu.Counter }

func (o counters) ApplyEncoderOption(e *sms.Encoder) {
	if o.mr != nil {
		e.MsgCount = o.mr
	}
	if o.cr != nil {
		e.ConcatRef = o.cr
	}
}

// p04: numbering.
func p04(c *mon.Ctx) {
	c.Rule("sequences of messages of every size through one Encoder, with its own or supplied counters started anywhere including about the wrap of the fields, with empty and conflicting messages between; direct segmentation with every combination of counters; and many goroutines sharing an Encoder or Counter. Non-trivial: distinct (start, sequence of segment counts), and concurrent assignments of numbers to messages.")
	c.Run("sequence", c.N(800), func(k *mon.Case) {
		r := k.R()
		e := genEncoder(r)
		enc := e.encoder()
		mr, cr := 0, 0
		var mc, cc *logCounter
		if r.P(1, 2) {
			mc, cc = &logCounter{}, &logCounter{}
			mr, cr = pick(r, []int{0, 200, 250, 254, 255, 256, 1000, 65530, r.IntN(100000)}), pick(r, []int{0, 250, 255, 256, 511, r.IntN(100000)})
			mc.n.Store(int64(mr))
			cc.n.Store(int64(cr))
			if r.P(1, 2) {
				enc.MsgCount, enc.ConcatRef = mc, cc
			} else { // by an option of the caller's own
				x := *e
				x.ctor = append(append([]sms.EncoderOption{}, e.ctor...), counters{mc, cc})
				enc = x.encoder()
			}
		}
		k.Input("encoder", strings.Join(e.desc, " "), "start", []int{mr, cr})
		var seq []int
		for n := r.Range(2, 14); n > 0; n-- {
			call := e.call
			conflict := false
			x := *e
			x.genMsg(r, 1500)
			switch r.IntN(8) {
			case 0:
				x.msg = nil
				if r.P(1, 2) {
					x.msg = []byte{}
				}
			case 1: // cannot be sent with this DCS
				call = append(append([]sms.EncoderOption{}, e.call...), sms.WithTemplateOption(tpdu.DCS(pick(r, dcsBad))))
				conflict = true
			case 2:
				call = append(append([]sms.EncoderOption{}, e.call...), sms.WithTemplateOption(tpdu.DCS(0xc0)))
				x.msg = []byte("中文" + genText(r, kBMP, 0, 200))
				conflict = true
			case 3: // more than can be numbered
				if r.P(1, 6) {
					x.msg = bytes.Repeat([]byte("overlong"), r.Range(5121, 6000))
				}
			}
			// counters for the one call leave those of the encoder alone
			om, oc := mr, cr
			var cm, ccr *logCounter
			if r.P(1, 5) {
				cm, ccr = &logCounter{}, &logCounter{}
				mr, cr = r.IntN(70000), r.IntN(70000)
				cm.n.Store(int64(mr))
				ccr.n.Store(int64(cr))
				call = append(append([]sms.EncoderOption{}, call...), counters{cm, ccr})
			}
			pdus, err := enc.Encode(x.msg, call...)
			k.Input("message", x.msg, "segments", len(pdus), "counters", cm != nil)
			if err != nil || len(pdus) == 0 {
				if conflict && err == nil && len(x.msg) > 0 {
					k.Fail("conflict", "encoded %d segments", len(pdus))
				}
				c.Count("numberless", 1)
				seq = append(seq, 0)
			}
			seq = append(seq, len(pdus))
			for i := range pdus {
				mr++
				if pdus[i].MR != byte(mr) {
					k.Fail("mr", "message %d segment %d has MR %d, want %d", len(seq), i+1, pdus[i].MR, byte(mr))
					return
				}
			}
			if len(pdus) > 1 {
				cr++
			}
			if d := concatDiff(pdus, false, cr); d != "" {
				k.Fail("ref", "message %d: %s", len(seq), d)
				return
			}
			c.Count("segments", int64(len(pdus)))
			if cm != nil {
				c.Count("call_counters", 1)
				if int(cm.n.Load()) != mr || int(ccr.n.Load()) != cr {
					k.Fail("consumed", "after message %d the counters of the call are at %d, %d, want %d, %d", len(seq), cm.n.Load(), ccr.n.Load(), mr, cr)
				}
				mr, cr = om, oc
			}
			if mc != nil {
				if int(mc.n.Load()) != mr || int(cc.n.Load()) != cr {
					k.Fail("consumed", "after message %d the counters are at %d, %d, want %d, %d", len(seq), mc.n.Load(), cc.n.Load(), mr, cr)
				}
			} else {
				a, b := enc.MsgCount.(*sms.Counter).Read(), enc.ConcatRef.(*sms.Counter).Read()
				if a != mr || b != cr {
					k.Fail("consumed", "after message %d the counters are at %d, %d, want %d, %d", len(seq), a, b, mr, cr)
				}
			}
		}
		k.Seen(mr, cr, fmt.Sprint(seq))
		// another encoder is independent
		o := sms.NewEncoder()
		if p, err := o.Encode([]byte("independent")); err != nil || len(p) != 1 || p[0].MR != 1 {
			k.Fail("independent", "the first message of another Encoder is %v, %v", p, err)
		}
		if mc == nil && (enc.MsgCount.(*sms.Counter).Read() != mr) {
			k.Fail("independent", "another Encoder changed the count")
		}
	})
	// one counter supplied, the other by default
	c.Run("one supplied", c.N(300), func(k *mon.Case) {
		r := k.R()
		own := &logCounter{}
		start := r.IntN(70000)
		own.n.Store(int64(start))
		ofMsgs, byCall := r.P(1, 2), r.P(1, 2)
		opt := counters{cr: own}
		mr, cr := 0, start
		if ofMsgs {
			opt = counters{mr: own}
			mr, cr = start, 0
		}
		var ctor, call []sms.EncoderOption
		switch {
		case byCall:
			call = append(call, opt)
		case r.P(1, 2):
			ctor = append(ctor, opt, sms.AsDeliver)
		default:
			ctor = append(ctor, sms.AsSubmit, opt)
		}
		enc := sms.NewEncoder(ctor...)
		k.Input("start", start, "of messages", ofMsgs, "for each call", byCall)
		var seq []int
		for n := r.Range(2, 8); n > 0; n-- {
			pdus, err := enc.Encode([]byte(strings.Repeat("x", pick(r, []int{1, 160, 161, 400, 900}))), call...)
			if err != nil {
				k.Fail("encode", "%v", err)
				return
			}
			seq = append(seq, len(pdus))
			for i := range pdus {
				if mr++; pdus[i].MR != byte(mr) {
					k.Fail("mr", "segment %d of message %d has MR %d, want %d", i+1, len(seq), pdus[i].MR, byte(mr))
					return
				}
			}
			if len(pdus) > 1 {
				cr++
			}
			if d := concatDiff(pdus, false, cr); d != "" {
				k.Fail("ref", "message %d: %s", len(seq), d)
				return
			}
		}
		k.Seen("one", start, ofMsgs, byCall, fmt.Sprint(seq))
	})
	// long enough for the fields to wrap
	c.Run("wrap", c.N(6), func(k *mon.Case) {
		r := k.R()
		enc := sms.NewEncoder(sms.AsSubmit)
		mr, cr := 0, 0
		for n := 0; n < 600; n++ {
			l := pick(r, []int{1, 10, 160, 161, 306, 307, 900})
			pdus, err := enc.Encode([]byte(strings.Repeat("x", l)))
			if err != nil {
				k.Fail("encode", "%v", err)
				return
			}
			for i := range pdus {
				if mr++; pdus[i].MR != byte(mr) {
					k.Fail("mr", "segment %d has MR %d", mr, pdus[i].MR)
					return
				}
			}
			if len(pdus) > 1 {
				cr++
			}
			if d := concatDiff(pdus, false, cr); d != "" {
				k.Fail("ref", "%s", d)
				return
			}
		}
		k.Seen("wrap", mr, cr)
	})
	c.Run("segment", c.N(2000), func(k *mon.Case) {
		r := k.R()
		t := genTPDU(r, pick(r, []int{ref.Submit, ref.Deliver}))
		t.UDH, t.UD, t.DCS = nil, nil, 4
		t.FO &^= 0x40
		tp := toTPDU(t)
		var opts []tpdu.SegmentationOption
		var mc, cc *logCounter
		wide := r.P(1, 2)
		mr, cr := 0, 1
		if r.P(2, 3) {
			mc = &logCounter{}
			mr = pick(r, []int{0, 253, 255, 65535, r.IntN(1 << 20)})
			mc.n.Store(int64(mr))
			opts = append(opts, tpdu.WithMR(mc))
		}
		if r.P(2, 3) {
			cc = &logCounter{}
			cr = pick(r, []int{0, 254, 255, 256, 65534, 65535, 65536, r.IntN(1 << 20)})
			cc.n.Store(int64(cr))
			opts = append(opts, tpdu.WithConcatRef(cc))
		}
		if wide {
			opts = append(opts, tpdu.With16BitConcatRef)
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		for n := 0; n < 3; n++ {
			msg := r.Bytes(genLen(r, 1500))
			over := r.P(1, 40)
			if over { // no numbers are taken
				msg = r.Bytes(r.Range(140*255+1, 140*300))
			}
			k.Input("len", len(msg), "mr", mr, "cr", cr, "wide", wide)
			pdus := tp.Segment(msg, opts...)
			if over && len(pdus) != 0 {
				k.Fail("overlong", "%d octets gave %d segments", len(msg), len(pdus))
				return
			}
			k.Seen("seg", len(pdus), mr, cr, wide, mc != nil, cc != nil)
			for i := range pdus {
				want := tp.MR
				if mc != nil {
					mr++
					want = byte(mr)
				}
				if pdus[i].MR != want {
					k.Fail("mr", "segment %d has MR %d, want %d", i+1, pdus[i].MR, want)
				}
			}
			if len(pdus) > 1 && cc != nil {
				cr++
			}
			if d := concatDiff(pdus, wide, cr); d != "" {
				k.Fail("ref", "%s", d)
			}
			if mc != nil && int(mc.n.Load()) != mr || cc != nil && int(cc.n.Load()) != cr {
				k.Fail("consumed", "the counters are not at %d and %d", mr, cr)
			}
		}
	})
	c.Run("concurrent", c.N(120), func(k *mon.Case) {
		r := k.R()
		enc := sms.NewEncoder(sms.AsSubmit, sms.To("1234"))
		gs := r.Range(2, 16)
		per := r.Range(1, 24)
		if r.P(1, 2) { // few enough that all the numbers are distinct
			gs, per = r.Range(2, 8), r.Range(1, 8)
		}
		lens := make([][]int, gs)
		for g := range lens {
			for i := 0; i < per; i++ {
				lens[g] = append(lens[g], pick(r, []int{0, 1, 160, 161, 161, 400, 700}))
			}
		}
		k.Input("lengths", lens)
		out := make([][][]tpdu.TPDU, gs)
		together(gs, func(g int) {
			for _, l := range lens[g] {
				p, err := enc.Encode([]byte(strings.Repeat("x", l)))
				if err != nil {
					p = nil
				}
				out[g] = append(out[g], p)
				c.Beat()
			}
		})
		var mrs, crs [256]int
		total, multi := 0, 0
		var order []string
		for g := range out {
			for i, p := range out[g] {
				want := 0
				if lens[g][i] > 0 {
					_, ch := ref.Split(&ref.TPDU{Kind: ref.Submit}, make([]byte, lens[g][i]), ref.A7, 0, false)
					want = len(ch)
				}
				if len(p) != want {
					k.Fail("lost", "message of %d characters encoded as %d segments, want %d", lens[g][i], len(p), want)
				}
				for j := range p {
					mrs[p[j].MR]++
					total++
				}
				if len(p) > 1 {
					multi++
					m, _ := concatRef(&p[0])
					crs[m&0xff]++
					order = append(order, fmt.Sprint(g, i, m))
				}
				if d := concatDiff(p, false, -1); d != "" {
					k.Fail("ref", "%s", d)
				}
			}
		}
		k.Seen(strings.Join(order, " "))
		c.Count("concurrent_segments", int64(total))
		for v := 0; v < 256; v++ {
			// numbers 1..total mod 256
			if w := (total+256-v)/256 - b2i(v == 0); mrs[v] != w {
				k.Fail("concurrent-mr", "of %d segments %d have MR %d, want %d", total, mrs[v], v, w)
				break
			}
		}
		for v := 0; v < 256; v++ {
			if w := (multi+256-v)/256 - b2i(v == 0); crs[v] != w {
				k.Fail("concurrent-ref", "of %d messages %d have reference %d, want %d", multi, crs[v], v, w)
				break
			}
		}
		if a, b := enc.MsgCount.(*sms.Counter).Read(), enc.ConcatRef.(*sms.Counter).Read(); a != total || b != multi {
			k.Fail("concurrent-count", "counters read %d and %d, want %d and %d", a, b, total, multi)
		}
	})
	c.Run("counter", c.N(60), func(k *mon.Case) {
		r := k.R()
		var ctr sms.Counter
		gs, per := r.Range(2, 12), r.Range(50, 1500)
		if k.I%20 == 7 { // past any narrow integer
			gs, per = 8, r.Range(9000, 20000)
		}
		k.Input("goroutines", gs, "each", per)
		seen := make([]atomic.Int32, gs*per+1)
		var bad atomic.Pointer[string]
		fail := func(f string, a ...any) { s := fmt.Sprintf(f, a...); bad.Store(&s) }
		together(gs, func(g int) {
			last := 0
			for i := 0; i < per; i++ {
				v := ctr.Count()
				if v < 1 || v > gs*per {
					fail("counted %d", v)
					continue
				}
				if v <= last {
					fail("counted %d after %d", v, last)
				}
				last = v
				if seen[v].Add(1) != 1 {
					fail("counted %d twice", v)
				}
				if x := ctr.Read(); x < v || x > gs*per {
					fail("read %d after counting %d", x, v)
				}
			}
		})
		k.Seen("counter", gs, per, k.I)
		if s := bad.Load(); s != nil {
			k.Fail("counter", "%s", *s)
		}
		if ctr.Read() != gs*per {
			k.Fail("counter", "counter reads %d after %d counts", ctr.Read(), gs*per)
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// together runs n goroutines from a common start.
func together(n int, f func(g int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	var mu sync.Mutex
	var panicked any
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					b := make([]byte, 8192)
					b = b[:runtime.Stack(b, false)]
					mu.Lock()
					panicked = fmt.Sprintf("%v\n%s", r, b)
					mu.Unlock()
				}
			}()
			<-start
			f(g)
		}()
	}
	close(start)
	wg.Wait()
	if panicked != nil {
		panic(fmt.Sprint("concurrent: ", panicked))
	}
}

// concOp is an operation with a result which does not depend on what runs
// concurrently.
type concOp struct {
	name string
	f    func() string
}

func show(pdus []tpdu.TPDU, err error) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v", err)
	for i := range pdus {
		t := *cloneTPDU(&pdus[i])
		t.MR = 0
		if len(pdus) > 1 && len(t.UDH) > 0 {
			if d := t.UDH[len(t.UDH)-1].Data; len(d) > 0 {
				d[0] = 0
			}
		}
		fmt.Fprintf(&sb, "%#v", t)
	}
	return sb.String()
}

// concOps generates operations on shared objects.
func concOps(r *mon.Rng) []concOp {
	var ops []concOp
	add := func(name string, f func() string) { ops = append(ops, concOp{name, f}) }
	// character sets, generated on first use
	for n := 0; n < 14; n++ {
		lt := genText(r, kLock, n, 12)
		st := genText(r, kShift, n, 12)
		sept := r.Bytes(24)
		for i := range sept {
			sept[i] &= 0x7f
			if i%3 == 0 {
				sept[i] = ref.Esc
			}
		}
		add(fmt.Sprint("gsm7.Encode locking ", n), func() string {
			b, err := gsm7.Encode([]byte(lt), gsm7.WithCharset(n))
			return fmt.Sprintf("%x %v", b, err)
		})
		add(fmt.Sprint("gsm7.Encode shift ", n), func() string {
			b, err := gsm7.Encode([]byte(st), gsm7.WithExtCharset(n))
			return fmt.Sprintf("%x %v", b, err)
		})
		add(fmt.Sprint("gsm7.Decode ", n), func() string {
			b, err := gsm7.Decode(sept, gsm7.WithCharset(n), gsm7.WithExtCharset(n))
			return fmt.Sprintf("%q %v", b, err)
		})
		// each combination of options
		for i, o := range [][]gsm7.DecoderOption{
			{gsm7.WithCharset(n)}, {gsm7.WithExtCharset(n)}, {gsm7.WithCharset(n), gsm7.WithoutExtCharset},
			{gsm7.WithExtCharset(n), gsm7.Strict}, {gsm7.WithCharset(n), gsm7.Strict}} {
			add(fmt.Sprintf("gsm7.Decode %d.%d", n, i), func() string {
				b, err := gsm7.Decode(sept, o...)
				d := gsm7.NewDecoder(o...)
				b2, err2 := d.Decode(sept)
				return fmt.Sprintf("%q %v %q %v", b, err, b2, err2)
			})
		}
		both1 := []byte(genText(r, kBoth, n, 12))
		add(fmt.Sprint("gsm7.Encode both ", n), func() string {
			b, err := gsm7.Encode(both1, gsm7.WithCharset(n), gsm7.WithExtCharset(n))
			e := gsm7.NewEncoder(gsm7.WithExtCharset(n))
			b2, err2 := e.Encode(both1)
			e = e.WithCharset(charset.NewEncoder(n))
			b3, err3 := e.Encode(both1)
			return fmt.Sprintf("%x %v %x %v %x %v", b, err, b2, err2, b3, err3)
		})
		udh := tpdu.UserDataHeader{{ID: 25, Data: []byte{byte(n)}}}
		if n%2 == 1 {
			udh[0].ID = 24
		}
		lo, so := tpdu.WithLockingCharset(n, 13-n), tpdu.WithShiftCharset(n, 13-n)
		add(fmt.Sprint("user data ", n), func() string {
			d, err := tpdu.DecodeUserData(sept, udh, tpdu.Alpha7Bit, lo)
			d2, err2 := tpdu.DecodeUserData(sept, udh, tpdu.Alpha7Bit, so)
			u, h, a := tpdu.EncodeUserData(both1, lo)
			u2, h2, a2 := tpdu.EncodeUserData(both1, so)
			return fmt.Sprintf("%q %v %q %v %x %v %v %x %v %v", d, err, d2, err2, []byte(u), h, a, []byte(u2), h2, a2)
		})
		add(fmt.Sprint("charset ", n), func() string {
			return fmt.Sprint(charset.NewDecoder(n), charset.NewExtDecoder(n), charset.NewEncoder(n), charset.NewExtEncoder(n))
		})
		both := genText(r, kBoth, n, 30)
		add(fmt.Sprint("sms.Encode ", n), func() string {
			return show(sms.Encode([]byte(both), sms.WithCharset(n)))
		})
		add(fmt.Sprint("EncodeUserData ", n), func() string {
			ud, udh, a := tpdu.EncodeUserData([]byte(both), tpdu.WithAllCharsets)
			d, err := tpdu.DecodeUserData(ud, udh, a, tpdu.WithAllCharsets)
			return fmt.Sprintf("%x %v %v %q %v", []byte(ud), udh, a, d, err)
		})
	}
	add("charset defaults", func() string {
		return fmt.Sprint(charset.DefaultDecoder(), charset.DefaultExtDecoder(), charset.DefaultEncoder(), charset.DefaultExtEncoder())
	})
	// shared encoders and decoders
	ge, gd := gsm7.NewEncoder(gsm7.WithCharset(1)), gsm7.NewDecoder(gsm7.WithExtCharset(13), gsm7.Strict)
	for i := 0; i < 4; i++ {
		tx := []byte(genText(r, kLock, 1, 40))
		add("shared gsm7.Encoder", func() string { b, err := ge.Encode(tx); return fmt.Sprintf("%x %v", b, err) })
		add("shared gsm7.Decoder", func() string {
			d := gd.WithCharset(charset.NewDecoder(3))
			b, err := gd.Decode([]byte("shared"))
			c, err2 := d.Decode([]byte("shared"))
			return fmt.Sprintf("%x %v %x %v", b, err, c, err2)
		})
	}
	// an Encoder shared by calls with different options
	for i := 0; i < 4; i++ {
		var e *encCase
		for {
			e = genEncoder(r)
			if len(e.ctor) >= i {
				break
			}
		}
		enc := e.encoder()
		for j := 0; j < 4; j++ {
			m := &encModel{want: e.want}
			var call []sms.EncoderOption
			for n := r.IntN(3); n >= 0; n-- {
				o, _ := genOption(r, m, optAny)
				call = append(call, o)
			}
			x := *e
			x.want, x.locking, x.shift = m.want, append(append([]int{}, e.locking...), m.locking...), append(append([]int{}, e.shift...), m.shift...)
			x.genMsg(r, 700)
			add("shared Encoder", func() string { return show(enc.Encode(x.msg, call...)) })
		}
	}
	// charset options only, in excess of the capacity left by the constructor's
	for i := 1; i < 6; i++ {
		var ctor []sms.EncoderOption
		for j := 0; j < i; j++ {
			ctor = append(ctor, sms.WithDefaultCharset)
		}
		enc := sms.NewEncoder(ctor...)
		for n := 1; n < 14; n++ {
			tx := genText(r, kBoth, n, 20)
			o := sms.WithCharset(n)
			add("per-call charset", func() string { return show(enc.Encode([]byte(tx), o)) })
		}
	}
	// a shared template
	for i := 0; i < 3; i++ {
		t := genTPDU(r, ref.Submit)
		t.UD = nil
		t.UDH = genUDH(r, 2, 40, false)
		t.FO &^= 0x40
		if len(t.UDH) > 0 {
			t.FO |= 0x40
		}
		t.DCS = byte(i * 4)
		tp := toTPDU(t)
		spareTPDU(r, tp)
		for j := 0; j < 3; j++ {
			msg := r.Bytes(genLen(r, 800))
			for i := range msg {
				msg[i] &= 0x7f
			}
			add("shared template", func() string { return show(tp.Segment(msg), nil) })
			add("shared template16", func() string { return show(tp.Segment(msg, tpdu.With16BitConcatRef), nil) })
			add("shared template encoder", func() string {
				return show(sms.Encode([]byte("long "+strings.Repeat("message ", 40)), sms.WithTemplate(*tp)))
			})
		}
	}
	// shared segments
	for i := 0; i < 3; i++ {
		u := ref.EncodeUCS2(genText(r, kAstral, 0, 60))
		var segs []*tpdu.TPDU
		for len(u) > 0 {
			n := min(len(u), 26)
			segs = append(segs, &tpdu.TPDU{DCS: 8, UD: spare(u[:n], 0, 6)})
			u = u[n:]
		}
		segs = append(segs, &tpdu.TPDU{UD: []byte("end")})
		add("shared Decode", func() string { b, err := sms.Decode(segs); return fmt.Sprintf("%q %v", b, err) })
		add("shared IsComplete", func() string { return fmt.Sprint(sms.IsCompleteMessage(segs), segs[0].UDBlockSize()) })
		lang := &tpdu.TPDU{UD: []byte{1, 2, 3, 0x1b, 0x40}, UDH: tpdu.UserDataHeader{{ID: 25, Data: []byte{byte(r.Range(1, 13))}}, {ID: 24, Data: []byte{byte(r.Range(1, 13))}}}}
		add("shared Decode lang", func() string {
			b, err := sms.Decode([]*tpdu.TPDU{lang})
			b2, err2 := sms.Decode([]*tpdu.TPDU{lang}, sms.WithDefaultCharset)
			return fmt.Sprintf("%q %v %q %v", b, err, b2, err2)
		})
	}
	// binary forms of shared TPDUs
	for kind := 0; kind < 6; kind++ {
		t := toTPDU(genTPDU(r, kind))
		mo := kind&1 == 1
		b, _ := t.MarshalBinary()
		add("MarshalBinary", func() string { b, err := t.MarshalBinary(); return fmt.Sprintf("%x %v", b, err) })
		add("Unmarshal", func() string {
			var g *tpdu.TPDU
			var err error
			if mo {
				g, err = sms.Unmarshal(b, sms.AsMO)
			} else {
				g, err = sms.Unmarshal(b)
			}
			if err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%+v", *g)
		})
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 0x91, Addr: "123456"}}, TPDU: b}
		add("pdumode", func() string {
			h, err := p.MarshalHexString()
			q, err2 := pdumode.UnmarshalHexString(h)
			return fmt.Sprint(h, err, q, err2)
		})
		add("String", func() string {
			return fmt.Sprint(t.DCS, t.PI, t.SmsType(), t.MTI(), t.SCTS, t.VP.Format, tpdu.EnhancedFormat(t.VP.EFI))
		})
	}
	// conversions of unrelated values
	for i := 0; i < 12; i++ {
		st, vp, ad := genStamp(r), genVP(r), genAddr(r)
		raw := append(st.Bytes(), r.Bytes(6)...)
		vpb, _ := vp.Bytes()
		adb, _ := ad.Bytes()
		sept := r.Bytes(r.Range(1, 20))
		for i := range sept {
			sept[i] &= 0x7f
		}
		dg := []byte(genDigits(r, r.Range(1, 12)))
		dcs := tpdu.DCS(r.Uint32())
		add("values", func() string {
			var ts tpdu.Timestamp
			err := ts.UnmarshalBinary(raw)
			b, err1 := ts.MarshalBinary()
			var v tpdu.ValidityPeriod
			n, err2 := v.UnmarshalBinary(vpb, tpdu.ValidityPeriodFormat(vp.Format))
			b2, err3 := v.MarshalBinary()
			var ta tpdu.Address
			n2, err4 := ta.UnmarshalBinary(adb)
			b3, err5 := ta.MarshalBinary()
			return fmt.Sprint(ts, b, err, err1, n, v, b2, err2, err3, n2, ta, b3, err4, err5, ta.Number())
		})
		add("septets", func() string {
			p, q := gsm7.Pack7Bit(sept, i%7), gsm7.Pack7BitUSSD(sept, i%7)
			return fmt.Sprintf("%x %x %x %x", p, q, gsm7.Unpack7Bit(p, i%7), gsm7.Unpack7BitUSSD(q, i%7))
		})
		add("digits", func() string {
			b, err := semioctet.Encode(dg)
			d, n, err2 := semioctet.Decode(make([]byte, len(dg)), b)
			a, err3 := dcs.Alphabet()
			c, err4 := dcs.Class()
			w, err5 := dcs.WithAlphabet(tpdu.AlphaUCS2)
			return fmt.Sprintf("%x %v %s %d %v %v %v %v %v %v %v %v", b, err, d, n, err2, a, err3, c, err4, w, err5, dcs)
		})
	}
	opt := sms.WithCharset(spare([]int{1, 13}, 5, 4)...)
	sopt, lopt := sms.WithShiftCharset(spare([]int{2, 13}, 5, 4)...), sms.WithLockingCharset(spare([]int{2, 13}, 5, 4)...)
	stx := []byte(genText(r, kExt, 13, 30))
	add("shared shift option", func() string { return show(sms.Encode(stx, sopt, sms.WithShiftCharset(3))) })
	add("shared locking option", func() string { return show(sms.Encode(stx, lopt, sms.WithCharset(4))) })
	add("shared options", func() string { return show(sms.Encode(stx, lopt, sopt, sms.WithAllCharsets)) })
	add("shared option, decoding", func() string {
		lang := &tpdu.TPDU{UD: []byte{1, 2, 3, 0x1b, 0x40}, UDH: tpdu.UserDataHeader{{ID: 25, Data: []byte{13}}, {ID: 24, Data: []byte{2}}}}
		b, err := sms.Decode([]*tpdu.TPDU{lang}, lopt, sopt, sms.WithCharset(5))
		return fmt.Sprintf("%q %v", b, err)
	})
	for i := 0; i < 3; i++ {
		tx := genText(r, kLock, 13, 30)
		add("shared option", func() string { return show(sms.Encode([]byte(tx), opt, sms.WithLockingCharset(3), opt)) })
		add("ucs2", func() string { x, err := ucs2.Decode(ucs2.Encode([]rune(tx))); return fmt.Sprint(string(x), err) })
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	return ops
}

// p05: concurrency.
func p05(c *mon.Ctx) {
	c.Rule("in each of several fresh processes: from a common start, 8 to 16 goroutines run overlapping selections of some 300 operations on shared encoders, templates, options, segments and on package state not yet initialised; results are compared with those of the same operations run alone afterwards. Run with and without the race detector. Non-trivial: distinct (operation, result), and each process's schedule.")
	n := c.N(40)
	if c.Race {
		n = c.N(48)
	}
	c.Run("shared", n, func(k *mon.Case) {
		r := k.R()
		ops := concOps(r)
		gs := pick(r, []int{8, 8, 16})
		type res struct {
			op  int
			out string
		}
		results := make([][]res, gs)
		plans := make([][]int, gs)
		for g := range plans {
			switch {
			case g%3 == 0: // everything, in the same order
				for i := range ops {
					plans[g] = append(plans[g], i)
				}
			default:
				plans[g] = r.Perm(len(ops))
			}
			if k.I > 0 {
				plans[g] = plans[g][:len(plans[g])/2]
			}
		}
		var inflight, peak atomic.Int64
		together(gs, func(g int) {
			for _, i := range plans[g] {
				if x := inflight.Add(1); x > peak.Load() {
					peak.Store(x)
				}
				out := ops[i].f()
				inflight.Add(-1)
				results[g] = append(results[g], res{i, out})
				c.Beat()
			}
		})
		c.Count("operations", int64(gs*len(plans[0])))
		c.Count("peak_overlap_sum", peak.Load())
		want := make([]string, len(ops))
		for i := range ops {
			want[i] = ops[i].f()
			k.C.Eval(ops[i].name, want[i])
		}
		k.Input("goroutines", gs, "operations", len(ops), "peak overlap", peak.Load())
		k.Seen(gs, len(ops), k.I)
		for g := range results {
			for _, x := range results[g] {
				if x.out != want[x.op] {
					k.Fail("differs:"+ops[x.op].name, "%s gave %s concurrently, but %s alone", ops[x.op].name, x.out, want[x.op])
				}
			}
		}
	})
	// nothing is shared through memory which is used again
	hs := allHist()
	c.Run("reuse", c.N(100), func(k *mon.Case) {
		r := k.R()
		type job struct {
			h    hist
			in   []byte
			want string
		}
		gs := r.Range(2, 8)
		jobs := make([][]job, gs)
		some := []hist{pick(r, hs), pick(r, hs), pick(r, hs), pick(r, hs)}
		size := 0
		alone := func(j *job) { j.want = rendered(j.h.f(bytes.Clone(j.in), &things{})) }
		for g := range jobs {
			for n := 0; n < 24; n++ {
				h := pick(r, some)
				j := job{h: h, in: h.gen(r)}
				if n > 0 && r.P(1, 2) { // of the same length
					for i := 0; i < 10 && len(j.in) != len(jobs[g][n-1].in); i++ {
						j.in = h.gen(r)
					}
				}
				k.Seen("reuse", h.name, j.in)
				size = max(size, len(j.in))
				jobs[g] = append(jobs[g], j)
			}
		}
		late := r.P(1, 2) // results alone are found afterwards
		if !late {
			for g := range jobs {
				for i := range jobs[g] {
					alone(&jobs[g][i])
				}
			}
		}
		got := make([][]string, gs)
		var held = make([][]any, gs)
		together(gs, func(g int) {
			buf, x := make([]byte, size), &things{}
			for i, j := range jobs[g] {
				if i%8 == 7 {
					x = &things{}
				}
				n := copy(buf, j.in)
				v := j.h.f(buf[:n], x)
				got[g] = append(got[g], rendered(v))
				if i%2 == 0 { // belongs to this goroutine
					scribble(reflect.ValueOf(v), 0)
				}
				held[g] = append(held[g], v)
				c.Beat()
			}
		})
		k.Input("goroutines", gs, "operations", fmt.Sprint(some[0].name, some[1].name, some[2].name, some[3].name))
		for g := range jobs {
			for i := range jobs[g] {
				j := &jobs[g][i]
				if late {
					alone(j)
				}
				if got[g][i] != j.want {
					k.Fail("reuse:"+j.h.name, "%s of %x gave %s concurrently, but %s alone", j.h.name, j.in, got[g][i], j.want)
				}
			}
		}
	})
	// what the shared Encoder produces is what its options say
	c.Run("isolation", c.N(200), func(k *mon.Case) {
		r := k.R()
		e := genEncoder(r)
		enc := e.encoder()
		type call struct {
			x    *encCase
			opts []sms.EncoderOption
			out  []tpdu.TPDU
			err  error
		}
		gs := r.Range(2, 8)
		calls := make([][]*call, gs)
		for g := range calls {
			for n := 0; n < 6; n++ {
				base := genBase(e)
				var opts []sms.EncoderOption
				kinds := optAny
				if r.P(1, 2) {
					kinds = optCharset
				}
				for i := r.IntN(3); i > 0; i-- {
					o, _ := genOption(r, base, kinds)
					opts = append(opts, o)
				}
				x := *e
				x.want, x.locking, x.shift = base.want, base.locking, base.shift
				x.genMsg(r, 500)
				calls[g] = append(calls[g], &call{x: &x, opts: opts})
			}
		}
		together(gs, func(g int) {
			for _, cl := range calls[g] {
				cl.out, cl.err = enc.Encode(cl.x.msg, cl.opts...)
				c.Beat()
			}
		})
		for g := range calls {
			for _, cl := range calls[g] {
				p := cl.x.plan()
				k.Seen("iso", cl.x.msg, len(cl.opts))
				if p.Conflict || len(p.UD) == 0 {
					continue
				}
				if cl.err != nil {
					k.Fail("isolation", "does not encode %q: %v", cl.x.msg, cl.err)
					continue
				}
				if ud := joinUD(cl.out); string(ud) != string(p.UD) || byte(cl.out[0].DCS) != p.DCS {
					k.Fail("isolation", "%q encoded as %x with DCS %02x, want %x %02x", cl.x.msg, ud, byte(cl.out[0].DCS), p.UD, p.DCS)
				}
				for i := range cl.out {
					if d := fieldDiff(&cl.x.want, &cl.out[i]); d != "" {
						k.Fail("isolation", "segment %d of %q: %s", i, cl.x.msg, d)
					}
					if d := headDiff(cl.x.want.UDH, cl.out[i].UDH); d != "" {
						k.Fail("isolation", "segment %d of %q: %s", i, cl.x.msg, d)
					}
				}
			}
		}
	})
}

// genBase is the model of an Encoder constructed without its call options.
func genBase(e *encCase) *encModel {
	return &encModel{want: e.base.want, locking: append([]int{}, e.base.locking...), shift: append([]int{}, e.base.shift...)}
}
