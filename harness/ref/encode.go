package ref

// DCSWithAlpha returns the DCS octet with its alphabet replaced and everything
// else kept, as per the coding groups of 23.038 section 4.
func DCSWithAlpha(d byte, alpha int) (byte, bool) {
	switch {
	case d < 0x80: // general data coding
		return d&^0x0c | byte(alpha)<<2, true
	case d >= 0xf0: // data coding/message class: bit 3 is reserved, bit 2 is 8 bit
		if alpha == AUCS2 {
			return 0, false
		}
		return d&^0x0c | byte(alpha)<<2, true
	case d >= 0xe0: // message waiting, UCS2
		return d, alpha == AUCS2
	case d >= 0xc0: // message waiting, GSM 7 bit
		return d, alpha == A7
	}
	return 0, false
}

// BlockSize is the number of septets or octets available to the short message
// of a TPDU with the information elements totalling udhl octets.
func BlockSize(kind int, fcs bool, alpha, udhl int) int {
	octets := map[int]int{Deliver: 140, Submit: 140, Command: 146, StatusReport: 131, SubmitReport: 152, DeliverReport: 159}[kind]
	if fcs && (kind == SubmitReport || kind == DeliverReport) {
		octets--
	}
	h := 0
	if udhl > 0 {
		h = udhl + 1
	}
	switch alpha {
	case A7:
		n := octets * 8 / 7
		for s := 0; s < h*8; s += 7 {
			n--
		}
		return n
	case AUCS2:
		return (octets - h) / 2 * 2
	}
	return octets - h
}

// Plan is the expected outcome of encoding a message.
type Plan struct {
	Conflict bool // the DCS cannot accommodate the alphabet
	DCS      byte
	Alpha    int
	Lang     []IE   // language elements to add to the UDH
	UD       []byte // complete user data
	Multi    bool
	Chunks   [][]byte
}

// Encode plans the encoding of a message with the template.
func Encode(t *TPDU, msg []byte, locking, shift []int, wide bool) (p Plan) {
	alpha, _, _, ok := DCS(t.DCS)
	p.DCS, p.Alpha, p.UD = t.DCS, alpha, msg
	if !ok || alpha == A7 {
		s := Select(string(msg), locking, shift)
		d, ok := DCSWithAlpha(t.DCS, s.Alpha)
		if !ok {
			p.Conflict = true
			return
		}
		p.DCS, p.Alpha, p.UD = d, s.Alpha, s.UD
		if s.Lock != 0 {
			p.Lang = append(p.Lang, IE{25, []byte{byte(s.Lock)}})
		}
		if s.Shift != 0 {
			p.Lang = append(p.Lang, IE{24, []byte{byte(s.Shift)}})
		}
	}
	p.Multi, p.Chunks = Split(t, p.UD, p.Alpha, UDHLen(t.UDH)+UDHLen(p.Lang), wide)
	return
}

// Split divides the user data amongst TPDUs.
func Split(t *TPDU, ud []byte, alpha, udhl int, wide bool) (multi bool, chunks [][]byte) {
	if len(ud) == 0 {
		return false, nil
	}
	bs := BlockSize(t.Kind, t.FCS != 0, alpha, udhl)
	if len(ud) <= bs {
		return false, [][]byte{ud}
	}
	n := 5
	if wide {
		n = 6
	}
	return true, Chunks(ud, alpha, BlockSize(t.Kind, t.FCS != 0, alpha, udhl+n))
}

// Text is the text which the user data represents.
func (p *Plan) Text(msg []byte) (text []byte, ok bool) {
	switch p.Alpha {
	case A8:
		return p.UD, true
	case AUCS2:
		r, dangling, odd := DecodeUCS2(p.UD)
		return []byte(string(r)), len(dangling) == 0 && !odd
	}
	return []byte(string([]rune(string(msg)))), true
}
