package ref

// Types of TPDU, numbered by MTI<<1|direction (1 is mobile originated).
const (
	Deliver = iota
	DeliverReport
	SubmitReport
	Submit
	StatusReport
	Command
)

// TypeName is the name used for the type.
var TypeName = []string{"SmsDeliver", "SmsDeliverReport", "SmsSubmitReport", "SmsSubmit", "SmsStatusReport", "SmsCommand"}

// TPDU is the reference model of a TPDU.
type TPDU struct {
	Kind                              int
	FO                                byte
	MR, PID, DCS, CT, MN, FCS, PI, ST byte
	Addr                              Addr // OA, DA or RA
	SCTS, DT                          Stamp
	VP                                VP
	UDH                               []IE
	UD                                []byte // as in the TPDU of the code under test: unpacked septets or octets
	NoPI                              bool   // status report ends before the PI
	NoUD                              bool   // report has no UD as its PI lacks UDL
}

// Fill is the number of fill bits between a UDH (with UDHL) of n octets and
// the first septet.
func Fill(n int) int { return (7 - n*8%7) % 7 }

// udBytes encodes UDL, UDH and SM.
func (t *TPDU) udBytes(alpha int) ([]byte, bool) {
	h := UDHBytes(t.UDH)
	if len(h) > 256 {
		return nil, false
	}
	var udl int
	var sm []byte
	switch alpha {
	case A7:
		if len(t.UD) == 0 {
			udl = len(h) * 8 / 7
		} else {
			udl = (len(h)*8+6)/7 + len(t.UD)
			sm = Pack(t.UD, Fill(len(h)))
		}
	case AUCS2:
		if len(t.UD)%2 == 1 {
			return nil, false
		}
		fallthrough
	default:
		udl = len(h) + len(t.UD)
		sm = t.UD
	}
	if udl > 255 {
		return nil, false
	}
	b := append([]byte{byte(udl)}, h...)
	return append(b, sm...), true
}

// Bytes encodes the TPDU; ok is false if it is not representable.
func (t *TPDU) Bytes() (b []byte, ok bool) {
	alpha, _, _, dok := DCS(t.DCS)
	b = []byte{t.FO}
	switch t.Kind {
	case Command:
		a, ok := t.Addr.Bytes()
		if !ok {
			return nil, false
		}
		b = append(b, t.MR, t.PID, t.CT, t.MN)
		b = append(b, a...)
		u, ok := t.udBytes(A8)
		return append(b, u...), ok
	case Deliver:
		a, ok := t.Addr.Bytes()
		if !ok || !dok {
			return nil, false
		}
		b = append(b, a...)
		b = append(b, t.PID, t.DCS)
		b = append(b, t.SCTS.Bytes()...)
		u, ok := t.udBytes(alpha)
		return append(b, u...), ok
	case Submit:
		a, ok := t.Addr.Bytes()
		if !ok || !dok {
			return nil, false
		}
		b = append(b, t.MR)
		b = append(b, a...)
		b = append(b, t.PID, t.DCS)
		v, ok := t.VP.Bytes()
		if !ok {
			return nil, false
		}
		b = append(b, v...)
		u, ok := t.udBytes(alpha)
		return append(b, u...), ok
	case StatusReport:
		a, ok := t.Addr.Bytes()
		if !ok {
			return nil, false
		}
		b = append(b, t.MR)
		b = append(b, a...)
		b = append(b, t.SCTS.Bytes()...)
		b = append(b, t.DT.Bytes()...)
		b = append(b, t.ST)
		if t.PI == 0 {
			return b, true
		}
		b = append(b, t.PI)
	case DeliverReport, SubmitReport:
		if t.FCS != 0 {
			b = append(b, t.FCS)
		}
		b = append(b, t.PI)
		if t.Kind == SubmitReport {
			b = append(b, t.SCTS.Bytes()...)
		}
	}
	if t.PI&1 != 0 {
		b = append(b, t.PID)
	}
	if t.PI&2 != 0 {
		b = append(b, t.DCS)
	}
	if t.PI&4 != 0 {
		if !dok {
			return nil, false
		}
		u, ok := t.udBytes(alpha)
		return append(b, u...), ok
	}
	return b, true
}

// Where identifies the top level field which could not be decoded.
type Where struct {
	Field string
	Off   int
}

// rd is a reader which remembers the start of the field being read.
type rd struct {
	b    []byte
	at   int // current position
	fld  int // start of the current field
	name string
	err  error
}

// fail notes the error, if any, for the field being read.
func (r *rd) where() Where { return Where{r.name, r.fld} }

func (r *rd) octet(name string) byte {
	if r.err != nil {
		return 0
	}
	r.fld, r.name = r.at, name
	if r.at >= len(r.b) {
		r.err = ErrShort
		return 0
	}
	r.at++
	return r.b[r.at-1]
}

func (r *rd) addr(name string) (a Addr) {
	if r.err != nil {
		return
	}
	r.fld, r.name = r.at, name
	var n int
	a, n, r.err = ParseAddr(r.b[r.at:])
	r.at += n
	return
}

func (r *rd) stamp(name string) (s Stamp) {
	if r.err != nil {
		return
	}
	r.fld, r.name = r.at, name
	s, r.err = ParseStamp(r.b[r.at:])
	r.at += 7
	return
}

// Parse decodes a TPDU. mo is the direction. On error w is the field which could
// not be decoded.
func Parse(b []byte, mo bool) (t *TPDU, w Where, err error) {
	r := &rd{b: b}
	t = &TPDU{}
	t.FO = r.octet("firstOctet")
	if r.err != nil {
		return nil, r.where(), r.err
	}
	t.Kind = int(t.FO&3) << 1
	if mo {
		t.Kind |= 1
	}
	if t.FO&3 == 3 {
		return nil, r.where(), ErrBad
	}
	fail := func() (*TPDU, Where, error) { return nil, r.where(), r.err }
	report := false
	switch t.Kind {
	case Deliver:
		t.Addr = r.addr("oa")
		t.PID = r.octet("pid")
		t.DCS = r.octet("dcs")
		t.SCTS = r.stamp("scts")
	case Submit:
		t.MR = r.octet("mr")
		t.Addr = r.addr("da")
		t.PID = r.octet("pid")
		t.DCS = r.octet("dcs")
		if r.err == nil {
			r.fld, r.name = r.at, "vp"
			var n int
			t.VP, n, r.err = ParseVP(r.b[r.at:], int(t.FO>>3&3))
			r.at += n
		}
	case Command:
		t.MR = r.octet("mr")
		t.PID = r.octet("pid")
		t.CT = r.octet("ct")
		t.MN = r.octet("mn")
		t.Addr = r.addr("da")
		t.DCS = 0x04
	case StatusReport:
		report = true
		t.MR = r.octet("mr")
		t.Addr = r.addr("ra")
		t.SCTS = r.stamp("scts")
		t.DT = r.stamp("dt")
		t.ST = r.octet("st")
		if r.err == nil && r.at == len(b) {
			t.NoPI = true
			return t, w, nil
		}
		t.PI = r.octet("pi")
	case DeliverReport:
		report = true
		t.FCS = r.octet("fcs")
		t.PI = r.octet("pi")
	case SubmitReport:
		report = true
		t.FCS = r.octet("fcs")
		t.PI = r.octet("pi")
		t.SCTS = r.stamp("scts")
	}
	if report {
		if t.PI&1 != 0 {
			t.PID = r.octet("pid")
		}
		if t.PI&2 != 0 {
			t.DCS = r.octet("dcs")
		}
		if r.err == nil && t.PI&4 == 0 {
			t.NoUD = true
			if r.at != len(b) {
				r.err = ErrDontCare
				return fail()
			}
			return t, w, nil
		}
	}
	// user data
	udl := int(r.octet("ud"))
	if r.err != nil {
		return fail()
	}
	alpha, _, _, ok := DCS(t.DCS)
	if udl == 0 {
		if r.at != len(b) {
			r.err = ErrLong
			return fail()
		}
		if t.FO&0x40 != 0 || !ok {
			r.err = ErrDontCare // flagged header with no room for it
			return fail()
		}
		return t, w, nil
	}
	if !ok {
		r.err = ErrBad
		return fail()
	}
	octets := udl
	if alpha == A7 {
		octets = (udl*7 + 7) / 8
	}
	rest := b[r.at:]
	if len(rest) < octets {
		r.err = ErrShort
		return fail()
	}
	if len(rest) > octets {
		r.err = ErrLong
		return fail()
	}
	hl := 0
	if t.FO&0x40 != 0 {
		t.UDH, hl, r.err = ParseUDH(rest)
		if r.err != nil {
			return fail()
		}
	}
	sm := rest[hl:]
	if alpha != A7 {
		if alpha == AUCS2 && len(sm)%2 == 1 {
			r.err = ErrOdd
			return fail()
		}
		t.UD = append([]byte(nil), sm...)
		return t, w, nil
	}
	if len(sm) == 0 {
		return t, w, nil
	}
	hs := 0 // septets used by the header and fill
	fill := 0
	if hl > 0 {
		hs, fill = (hl*8+6)/7, Fill(hl)
	}
	n := udl - hs
	s := Unpack(sm, fill)
	if n < 0 || n > len(s) {
		r.err = ErrDontCare // UDL inconsistent with its own header
		return fail()
	}
	if len(s) > n && (len(s) > n+1 || s[n] != 0) {
		r.err = ErrSpare
		return fail()
	}
	t.UD = s[:n]
	return t, w, nil
}
