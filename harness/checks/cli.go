package checks

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"

	"verifharness/mon"
	"verifharness/ref"
)

func init() { Reg["P26"] = p26 }

type toolOut struct {
	out, err string
	code     int
}

// tool runs one of the command line tools.
func tool(k *mon.Case, name string, args ...string) toolOut {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Stdin = nil
	cmd.Env = []string{"HOME=/nonexistent", "GOTRACEBACK=all"}
	err := cmd.Run()
	k.C.Beat()
	k.C.Count("runs."+name, 1)
	t := toolOut{o.String(), e.String(), 0}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(fmt.Sprintf("harness: cannot run %s: %v", name, err))
		}
		t.code = x.ExitCode()
		if ctx.Err() != nil {
			k.Fail("hang", "%s did not finish within a minute: %q", name, args)
		} else if strings.Contains(t.err, "panic:") || strings.Contains(t.err, "fatal error:") || strings.Contains(t.err, "goroutine ") {
			k.Fail("panic:"+name, "%s crashed: %q: %s", name, args, t.err)
		}
	}
	return t
}

// fillText is text which about fills a number of PDUs.
func fillText(r *mon.Rng, nli int) string {
	var one, two []rune
	per := 0
	initRunes()
	switch r.IntN(4) {
	case 0:
		one, two, per = []rune("a"), []rune("{"), 153
	case 1:
		one, two, per = []rune("ж"), []rune("😁"), 67
	case 2:
		one, two, per = lockRunes[0], shiftRune[nli], pick(r, []int{149, 150, 153})
	default:
		one, two, per = lockRunes[nli], shiftRune[nli], pick(r, []int{146, 147, 149})
	}
	n := per*r.Range(1, 5) + r.Range(-4, 4)
	if r.P(1, 2) {
		n = per + r.Range(-4, 10)
	}
	var out []rune
	for size := 0; size < n; {
		switch c := pick(r, one); {
		case len(two) > 0 && n-size >= 2 && r.P(1, 20):
			out = append(out, pick(r, two))
			size += 2
		case c == 0:
			out = append(out, 'x')
			size++
		default:
			out = append(out, c)
			size++
		}
	}
	if len(two) > 0 && r.P(1, 2) {
		out = append(out, pick(r, two))
	}
	return string(out)
}

// argText generates text which can be passed as an argument.
func argText(r *mon.Rng, nli, max int) string {
	for {
		s := genText(r, r.IntN(kInvalid), nli, genLen(r, max))
		s = strings.ReplaceAll(s, "\x00", "")
		if s != "" && utf8.ValidString(s) {
			return s
		}
	}
}

// cutText is the leading characters of a text which fit in n octets.
func cutText(s string, n int) string {
	if n >= len(s) {
		return s
	}
	for !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

// toolHex extracts the TPDUs printed by smssubmit.
func toolHex(out string) (b [][]byte, problem string) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines)%2 != 0 {
		return nil, "an odd number of lines"
	}
	for i := 0; i < len(lines); i += 2 {
		want := "Submit TPDU:"
		if len(lines) > 2 {
			want = fmt.Sprintf("Submit TPDU %d:", i/2+1)
		}
		if lines[i] != want {
			return nil, fmt.Sprintf("line %q, want %q", lines[i], want)
		}
		x, err := hex.DecodeString(lines[i+1])
		if err != nil {
			return nil, err.Error()
		}
		b = append(b, x)
	}
	return b, ""
}

// p26: the command line tools.
func p26(c *mon.Ctx) {
	c.Rule("each tool run, as a separate process, on generated messages, TPDUs and hostile arguments, its output being compared with the reference model: the TPDUs printed, the messages reassembled, the fields dumped, the counts, the tables. Non-trivial: distinct argument lists.")
	if os.Getenv("VERIF_BIN") == "" {
		panic("harness: no VERIF_BIN")
	}
	c.Run("submit", c.N(350), func(k *mon.Case) {
		r := k.R()
		nli := 0
		if r.P(2, 3) {
			nli = r.IntN(14)
		}
		text := argText(r, nli, 1200)
		if r.P(1, 30) { // very many
			for unit := text; len(text) < 30000; {
				text += unit
			}
			text = cutText(text, r.Range(5000, 30000))
		}
		num := genNumber(r)
		arg := num
		if r.P(1, 3) {
			arg = "+" + num
		}
		args := []string{"-number=" + arg, "-message=" + text}
		if nli != 0 || r.P(1, 4) {
			args = append(args, fmt.Sprintf("-language=%d", nli))
		}
		k.Input("args", args)
		t := tool(k, "smssubmit", args...)
		k.Seen("submit", strings.Join(args, "\x00"))
		want := &ref.TPDU{Kind: ref.Submit, FO: 1, Addr: ref.Addr{TOA: 0x91, Text: num}}
		var nlis []int
		if nli != 0 {
			nlis = []int{nli}
		}
		p := ref.Encode(want, []byte(text), nlis, nlis, false)
		if t.code != 0 {
			k.Fail("submit", "exits %d: %s", t.code, t.err)
			return
		}
		if len(p.Chunks) > 255 {
			c.Count("overlong", 1)
			if t.out != "" || t.err == "" {
				k.Fail("submit", "message of %d segments prints %.100q, error %q", len(p.Chunks), t.out, t.err)
			}
			return
		}
		bs, prob := toolHex(t.out)
		if prob != "" {
			k.Fail("submit", "prints %q: %s", t.out, prob)
			return
		}
		if len(bs) != max(1, len(p.Chunks)) {
			k.Fail("submit", "prints %d TPDUs, want %d", len(bs), len(p.Chunks))
			return
		}
		refno := -1
		for i, b := range bs {
			g, where, err := ref.Parse(b, true)
			if err != nil {
				k.Fail("submit", "TPDU %d is malformed: %x: %v %v", i+1, b, where, err)
				return
			}
			if g.Kind != ref.Submit || g.Addr != want.Addr || g.DCS != p.DCS || g.PID != 0 {
				k.Fail("submit", "TPDU %d has type %d address %v DCS %02x PID %02x, want %v %02x", i+1, g.Kind, g.Addr, g.DCS, g.PID, want.Addr, p.DCS)
			}
			if !bytes.Equal(g.UD, p.Chunks[i]) {
				k.Fail("submit", "TPDU %d holds %x, want %x", i+1, g.UD, p.Chunks[i])
			}
			segs, seq, rf, ok := ref.Concat(g.UDH)
			if ok != p.Multi {
				k.Fail("submit", "TPDU %d concatenation header present: %v", i+1, ok)
			} else if ok {
				if refno == -1 {
					refno = rf
				}
				if segs != len(bs) || seq != i+1 || rf != refno {
					k.Fail("submit", "TPDU %d is segment %d of %d with reference %d, want %d of %d with %d", i+1, seq, segs, rf, i+1, len(bs), refno)
				}
			}
			for _, l := range p.Lang {
				found := false
				for _, e := range g.UDH {
					found = found || e.ID == l.ID && bytes.Equal(e.Data, l.Data)
				}
				if !found {
					k.Fail("submit", "TPDU %d lacks the language element %v: %v", i+1, l, g.UDH)
				}
			}
			if n := len(p.Lang) + b2i(p.Multi); len(g.UDH) != n {
				k.Fail("submit", "TPDU %d has header %v, want %d elements", i+1, g.UDH, n)
			}
		}
		// what is printed decodes
		var segs []*tpdu.TPDU
		for _, b := range bs {
			s, err := sms.Unmarshal(b, sms.AsMO)
			if err != nil {
				k.Fail("submit", "prints a TPDU which does not unmarshal: %v", err)
				return
			}
			segs = append(segs, s)
		}
		if m, err := sms.Decode(segs); err != nil || string(m) != text {
			k.Fail("submit", "prints TPDUs which decode as %q, %v; sent %q", m, err, text)
		}
	})
	c.Run("counter", c.N(700), func(k *mon.Case) {
		r := k.R()
		nli := 0
		if r.P(2, 3) {
			nli = r.IntN(14)
		}
		text := argText(r, nli, 1500)
		if r.P(1, 3) {
			text = fillText(r, nli)
		}
		args := []string{"-message=" + text}
		var nlis []int
		if nli != 0 {
			args = append(args, fmt.Sprintf("-language=%d", nli))
			nlis = []int{nli}
		}
		k.Input("args", args)
		t := tool(k, "smscounter", args...)
		k.Seen("counter", strings.Join(args, "\x00"))
		m := &ref.TPDU{Kind: ref.Submit, FO: 1}
		p := ref.Encode(m, []byte(text), nlis, nlis, false)
		hl := ref.UDHLen(p.Lang)
		if p.Multi {
			hl += 5
		}
		per := ref.BlockSize(ref.Submit, false, p.Alpha, hl)
		last := len(p.Chunks[len(p.Chunks)-1])
		total := 0
		for _, ch := range p.Chunks {
			total += len(ch)
		}
		enc := "7BIT"
		if p.Alpha == ref.AUCS2 {
			enc = "UCS-2"
			per /= 2
			last /= 2
			total /= 2
		} else if bytes.IndexByte(p.UD, 0x1b) >= 0 {
			enc = "7BIT_EX"
		}
		want := fmt.Sprintf("encoding: %s\nmessages: %d\ntotal length: %d\nlast PDU length: %d\nper_message: %d\nremaining: %d\n",
			enc, len(p.Chunks), total, last, per, per-last)
		if t.code != 0 || t.out != want {
			k.Fail("counter", "prints %q (%s), want %q", t.out, t.err, want)
		}
	})
	c.Run("deliver", c.N(300), func(k *mon.Case) {
		r := k.R()
		type item struct {
			m, i int
			arg  string
			bad  bool
		}
		pm := r.P(1, 2)
		var items []item
		var nums, texts []string
		var sizes []int
		for m := 0; m < r.Range(1, 4); m++ {
			nli := r.IntN(14)
			num := fmt.Sprint(m, genNumber(r))
			if len(num) > 15 {
				num = num[:15]
			}
			if r.P(1, 6) {
				num += genDigits(r, r.IntN(200))
			}
			text := argText(r, nli, 700)
			opts := []sms.EncoderOption{sms.AsDeliver, sms.From(num)}
			if nli != 0 {
				opts = append(opts, sms.WithCharset(nli))
			}
			pdus, err := sms.Encode([]byte(text), opts...)
			if err != nil {
				k.Fail("encode", "does not encode %q: %v", text, err)
				return
			}
			show := "+" + num
			if r.P(1, 3) { // other types of number
				oa := tpdu.Address{TOA: pick(r, []byte{0x81, 0xa1, 0xd0}), Addr: num}
				if oa.TOA == 0xd0 {
					oa.Addr = fmt.Sprint("A b", m)
				}
				show = oa.Addr
				for i := range pdus {
					pdus[i].OA = oa
				}
			}
			if len(pdus) == 1 && r.P(1, 4) { // divided into just the one, or so it says
				pdus[0].SetUDH(append(pdus[0].UDH, tpdu.InformationElement{ID: 0, Data: []byte{byte(r.IntN(4)), byte(r.IntN(2)), byte(r.IntN(4))}}))
			}
			nums, texts, sizes = append(nums, show), append(texts, text), append(sizes, len(pdus))
			for i := range pdus {
				b, err := pdus[i].MarshalBinary()
				if err != nil {
					k.Fail("encode", "does not marshal: %v", err)
					return
				}
				if pm {
					p := pdumode.PDU{TPDU: b}
					if r.P(1, 2) {
						p.SMSC.TOA, p.SMSC.Addr = 0x91, genNumber(r)
					}
					b, _ = p.MarshalBinary()
				}
				a := hex.EncodeToString(b)
				if r.P(1, 3) {
					a = strings.ToUpper(a)
				}
				items = append(items, item{m, i, a, false})
			}
		}
		if r.P(3, 4) {
			r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
		}
		if len(items) > 1 && r.P(1, 3) { // lose one
			x := r.IntN(len(items))
			items = append(items[:x], items[x+1:]...)
		}
		faults := 0
		for n := r.IntN(3); n > 0; n-- { // a PDU which cannot be unmarshalled, collected or decoded
			faults++
			x := r.IntN(len(items) + 1)
			z := "00000000000000"
			g := pick(r, []string{"03", "04038121f30008" + z + "040061d83d", "04038121f30008" + z + "02d83d",
				"44038121f30004" + z + "0705000307020361", "44038121f30004" + z + "0705000307020061"}[:1+2*r.IntN(3)])
			if pm {
				g = "00" + g
			}
			items = append(items[:x], append([]item{{bad: true, arg: g}}, items[x:]...)...)
		}
		if r.P(1, 4) && len(items) > 1 { // a duplicate
			x := r.IntN(len(items))
			items = append(items[:x+1], items[x:]...)
		}
		var args []string
		if pm {
			args = append(args, "-p")
		}
		want := ""
		have := map[int]map[int]bool{}
		for _, it := range items {
			args = append(args, it.arg)
			if it.bad {
				continue
			}
			h := have[it.m]
			if h == nil {
				h = map[int]bool{}
				have[it.m] = h
			}
			if h[it.i] {
				continue
			}
			h[it.i] = true
			if len(h) == sizes[it.m] {
				delete(have, it.m)
				want += fmt.Sprintf("%s: %s\n", nums[it.m], texts[it.m])
			}
		}
		k.Input("args", args)
		t := tool(k, "smsdeliver", args...)
		k.Seen("deliver", strings.Join(args, " "))
		if t.code != 0 {
			k.Fail("deliver", "exits %d: %s", t.code, t.err)
			return
		}
		if !strings.HasPrefix(t.out, want) {
			k.Fail("deliver", "prints %q, want %q", t.out, want)
			return
		}
		if got := strings.Count(t.err, "\n"); got < faults {
			k.Fail("deliver", "reports %q of %d PDUs at fault", t.err, faults)
		}
		rest := t.out[len(want):]
		n := 0
		for _, l := range strings.Split(rest, "\n") {
			switch {
			case strings.HasPrefix(l, "incomplete reassembly"):
				n++
			case strings.HasPrefix(l, "[") || l == "":
			default:
				k.Fail("deliver", "prints %q, want %q", t.out, want)
				return
			}
		}
		if n != len(have) {
			k.Fail("deliver", "reports %d messages incomplete, want %d: %q", n, len(have), rest)
		}
	})
	c.Run("decode", c.N(500), func(k *mon.Case) {
		r := k.R()
		kind := r.IntN(6)
		m := genTPDU(r, kind)
		m.NoUD = false
		b, ok := m.Bytes()
		if !ok {
			c.Trivial()
			return
		}
		// fields as the reference decoder has them
		m, _, err := ref.Parse(b, kind&1 == 1)
		if err != nil {
			c.Trivial()
			return
		}
		var args []string
		smsc := ""
		if r.P(1, 2) {
			args = append(args, "-p")
			p := pdumode.PDU{TPDU: b}
			p.SMSC.TOA = pick(r, []byte{0x91, 0x81})
			p.SMSC.Addr = genNumber(r)
			smsc = "SMSC: " + p.SMSC.Addr + "\n"
			if p.SMSC.TOA == 0x91 {
				smsc = "SMSC: +" + p.SMSC.Addr + "\n"
			}
			if r.P(1, 6) { // none
				p.SMSC.Addr = ""
				smsc = "SMSC: \n"
			}
			b, err = p.MarshalBinary()
			if err != nil {
				k.Fail("pdumode", "%v", err)
				return
			}
		}
		if kind&1 == 1 {
			args = append(args, "-o")
		}
		args = append(args, hex.EncodeToString(b))
		if r.P(1, 3) {
			args[len(args)-1] = strings.ToUpper(args[len(args)-1])
		}
		k.Input("args", args)
		t := tool(k, "smsdecode", args...)
		k.Seen("decode", strings.Join(args, " "))
		want := smsc + dumpText(m)
		if t.code != 0 || t.out != want {
			k.Fail("decode", "prints (%d)\n%s%s\nwant\n%s", t.code, t.out, t.err, want)
		}
	})
	c.Run("hostile", c.N(400), func(k *mon.Case) {
		r := k.R()
		name := pick(r, []string{"smsdecode", "smsdeliver", "smsdecode", "smssubmit", "smscounter"})
		var args []string
		reject := false
		switch name {
		case "smsdecode", "smsdeliver":
			b, mo := hostile(r)
			if r.P(1, 3) {
				args = append(args, "-p")
				b = append([]byte{byte(r.IntN(12))}, b...)
			}
			if mo && name == "smsdecode" {
				args = append(args, "-o")
			}
			n := 1
			if name == "smsdeliver" {
				n = r.Range(1, 4)
			}
			for ; n > 0; n-- {
				h := hex.EncodeToString(b)
				if r.P(1, 8) {
					h = pick(r, []string{"", "0", "zz", h + "g", h + "0", " " + h, "0x" + h})
					reject = true
				}
				args = append(args, h)
				b, _ = hostile(r)
			}
		case "smssubmit":
			args = []string{"-number=" + pick(r, []string{"x", "12x", "é", "", "+", "1 2", "\xff", "123456789012345678901234567890"}),
				"-message=" + argText(r, 0, 300), fmt.Sprintf("-language=%d", pick(r, []int{0, -1, 14, 99, 255, 256}))}
		case "smscounter":
			args = []string{"-message=" + pick(r, []string{"", "\xff", "a\xc3", strings.Repeat("x", 50000)}), fmt.Sprintf("-language=%d", pick(r, []int{0, -1, 14, 99, 255, 256}))}
		}
		k.Input("tool", name, "args", args)
		t := tool(k, name, args...)
		k.Seen("hostile", name, strings.Join(args, "\x00"))
		if t.out == "" && t.err == "" {
			k.Fail("silent", "%s prints nothing", name)
		}
		if reject && name == "smsdecode" && t.code == 0 {
			k.Fail("hex", "smsdecode accepts malformed hex: prints %q", t.out)
		}
		if name == "smsdecode" && !reject {
			// accepted exactly if valid
			b, _ := hex.DecodeString(args[len(args)-1])
			valid := true
			mo := false
			for _, a := range args[:len(args)-1] {
				if a == "-o" {
					mo = true
				}
				if a == "-p" {
					p, err := pdumode.UnmarshalBinary(b)
					if err != nil {
						valid = false
						break
					}
					b = p.TPDU
				}
			}
			if valid {
				_, err := unmarshal(b, mo)
				valid = err == nil
			}
			if valid != (t.code == 0) || valid != (t.out != "") {
				k.Fail("validity", "smsdecode exits %d printing %q %q for a PDU which the library accepts: %v", t.code, t.out, t.err, valid)
			}
		}
		if name == "smssubmit" && t.out != "" {
			bs, prob := toolHex(t.out)
			if prob != "" {
				k.Fail("submit", "prints %q: %s", t.out, prob)
			}
			for _, b := range bs {
				if len(b) == 0 {
					k.Fail("submit", "prints an empty TPDU: %q", t.out)
				}
			}
		}
	})
	c.Run("usage", 1, func(k *mon.Case) {
		for _, a := range [][]string{{"smssubmit"}, {"smscounter"}, {"smsdecode"}, {"smsdeliver"}, {"smsdecode", "00", "00"}, {"smssubmit", "-number=1"}, {"smssubmit", "-message=1"}} {
			t := tool(k, a[0], a[1:]...)
			k.C.Eval("usage", fmt.Sprint(a))
			if t.code == 0 || t.out != "" || !strings.Contains(t.err, "Usage") {
				k.Fail("usage", "%v without its arguments exits %d, prints %q %q", a, t.code, t.out, t.err)
			}
		}
	})
	c.Run("charsets", 1, func(k *mon.Case) {
		t := tool(k, "charsets")
		if t.code != 0 {
			k.Fail("charsets", "exits %d", t.code)
		}
		blocks := strings.Split(strings.TrimSuffix(t.out, "\n\n"), "\n\n")
		if len(blocks) != 28 {
			k.Fail("charsets", "prints %d tables", len(blocks))
			return
		}
		for i, bl := range blocks {
			kind, m := "Locking", ref.Lock(i/2)
			if i%2 == 1 {
				kind, m = "Shift", ref.Shift(i/2)
			}
			lines := strings.Split(bl, "\n")
			if !strings.HasSuffix(lines[0], fmt.Sprintf("%s (NLI=%d)", kind, i/2)) || len(lines) != 18 {
				k.Fail("charsets", "table %d is headed %q and has %d lines", i, lines[0], len(lines))
				continue
			}
			lang := strings.Fields("default Turkish Spanish Portuguese Bengali Guja Hindi Kannada Malayalam Oriya Punjabi Tamil Telugu Urdu")
			for j, l := range lang {
				if strings.Contains(strings.ToLower(lines[0]), strings.ToLower(l)) != (j == i/2) {
					k.Fail("charsets", "table %d is headed %q", i, lines[0])
				}
			}
			if h := strings.TrimRight(lines[1], " "); h != "      0x0_ 0x1_ 0x2_ 0x3_ 0x4_ 0x5_ 0x6_ 0x7_" {
				k.Fail("charsets", "the columns of table %d are headed %q", i, h)
			}
			for row, l := range lines[2:] {
				want := fmt.Sprintf("0x_%x: ", row)
				for col := 0; col < 8; col++ {
					cell := "     "
					if v, ok := m[byte(col*16+row)]; ok {
						s, special := map[rune]string{'\n': "LF", '\r': "CR", '\f': "FF", ' ': "SP", 0x1b: "ESC", 0x20ac: " €"}[v]
						switch {
						case special:
							cell = fmt.Sprintf("%3s  ", s)
						case v >= 0x400:
							cell = fmt.Sprintf("%04x ", v)
						default:
							cell = "  " + string(v) + "  "
						}
					}
					want += cell
					k.C.Eval("cell", i, row, col)
				}
				if strings.TrimRight(l, " ") != strings.TrimRight(want, " ") {
					k.Fail("charsets", "%s table %d row %x is %q, want %q", kind, i/2, row, l, want)
				}
			}
		}
		c.Exhaustive("every cell of every character set table printed by charsets")
	})
	// several runs at once share nothing
	c.Run("parallel", c.N(4), func(k *mon.Case) {
		r := k.R()
		args := []string{"-number=123", "-message=" + argText(r, 0, 900)}
		want := tool(k, "smssubmit", args...)
		var wg sync.WaitGroup
		outs := make([]toolOut, 8)
		for i := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i] = tool(k, "smssubmit", args...)
			}()
		}
		wg.Wait()
		k.Input("args", args)
		k.Seen("parallel", strings.Join(args, " "))
		for _, o := range outs {
			if o != want {
				k.Fail("parallel", "prints %q, and %q", o.out, want.out)
			}
		}
	})
}

func flag(o byte, bit uint) bool { return o>>bit&1 == 1 }

// dumpText is what smsdecode prints for a TPDU.
func dumpText(m *ref.TPDU) string {
	var sb strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&sb, f+"\n", a...) }
	p("TPDU: %s", []string{"SMS-DELIVER", "SMS-DELIVER-REPORT", "SMS-SUBMIT-REPORT", "SMS-SUBMIT", "SMS-STATUS-REPORT", "SMS-COMMAND"}[m.Kind])
	mti := m.FO & 3
	p("TP-MTI: 0x%02x %s", mti, []string{"Deliver", "Submit", "Command"}[mti])
	num := m.Addr.Text
	if m.Addr.TOA&0x70 == 0x10 {
		num = "+" + num
	}
	udhi := func() { p("TP-UDHI: %t", flag(m.FO, 6)) }
	pid := func() { p("TP-PID: 0x%02x", m.PID) }
	dcs := func() {
		n := ""
		if a, _, _, ok := ref.DCS(m.DCS); ok {
			n = []string{" 7bit", " 8bit", " UCS-2"}[a]
		}
		p("TP-DCS: 0x%02x%s", m.DCS, n)
	}
	udh := func() {
		for i, e := range m.UDH {
			h := "       "
			if i == 0 {
				h = "TP-UDH: "
			}
			p("%sID: %d  Data: %v", h, e.ID, e.Data)
		}
	}
	ud := func() {
		udh()
		for i, l := range strings.Split(strings.TrimSpace(hex.Dump(m.UD)), "\n") {
			h := "       "
			if i == 0 {
				h = "TP-UD: "
			}
			p("%s%s", h, l)
		}
	}
	pi := func() {
		var n []string
		for i, x := range []string{"PID", "DCS", "UDL"} {
			if flag(m.PI, uint(i)) {
				n = append(n, x)
			}
		}
		if m.PI == 0 {
			n = []string{"0"}
		}
		p("TP-PI: %s", strings.Join(n, "|"))
	}
	optional := func() {
		if m.PI&1 != 0 {
			pid()
		}
		if m.PI&2 != 0 {
			dcs()
		}
		ud()
	}
	stamp := func(s ref.Stamp) string { return stampTime(s).Format("2006-01-02 15:04:05 -0700") }
	switch m.Kind {
	case ref.Command:
		udhi()
		p("TP-SRR: %t", flag(m.FO, 5))
		p("TP-MR: %d", m.MR)
		pid()
		p("TP-CT: 0x%02x", m.CT)
		p("TP-MN: %d", m.MN)
		p("TP-DA: %s", num)
		p("TP-CDL: %d", len(m.UD)+len(ref.UDHBytes(m.UDH)))
		udh()
		for i, l := range strings.Split(hex.Dump(m.UD), "\n") {
			h := "       "
			if i == 0 {
				h = "TP-CD: "
			}
			p("%s%s", h, l)
		}
	case ref.Deliver:
		p("TP-MMS: %t", flag(m.FO, 2))
		p("TP-LP: %t", flag(m.FO, 3))
		p("TP-RP: %t", flag(m.FO, 7))
		udhi()
		p("TP-SRI: %t", flag(m.FO, 5))
		p("TP-OA: %s", num)
		pid()
		dcs()
		p("TP-SCTS: %s", stamp(m.SCTS))
		ud()
	case ref.DeliverReport:
		udhi()
		p("TP-FCS: 0x%02x", m.FCS)
		pi()
		optional()
	case ref.SubmitReport:
		udhi()
		p("TP-FCS: 0x%02x", m.FCS)
		pi()
		p("TP-SCTS: %s", stamp(m.SCTS))
		optional()
	case ref.StatusReport:
		udhi()
		p("TP-MMS: %t", flag(m.FO, 2))
		p("TP-LP: %t", flag(m.FO, 3))
		p("TP-SRQ: %t", flag(m.FO, 5))
		p("TP-MR: %d", m.MR)
		p("TP-RA: %s", num)
		p("TP-SCTS: %s", stamp(m.SCTS))
		p("TP-DT: %s", stamp(m.DT))
		p("TP-ST: 0x%02x", m.ST)
		pi()
		optional()
	case ref.Submit:
		p("TP-RD: %t", flag(m.FO, 2))
		p("TP-VPF: 0x%02x %s", m.FO>>3&3, tpdu.ValidityPeriodFormat(m.FO>>3&3))
		p("TP-RP: %t", flag(m.FO, 7))
		udhi()
		p("TP-SRR: %t", flag(m.FO, 5))
		p("TP-MR: %d", m.MR)
		p("TP-DA: %s", num)
		pid()
		dcs()
		v := toVP(m.VP)
		switch m.FO >> 3 & 3 {
		case 0:
			p("TP-VP: Not Present")
		case 1:
			p("TP-VP: Enhanced %s - %s", tpdu.EnhancedFormat(v.EFI), v.Duration)
		case 2:
			p("TP-VP: Relative - %s", v.Duration)
		case 3:
			p("TP-VP: Absolute - %s", stamp(m.VP.Stamp))
		}
		ud()
	}
	return sb.String()
}
