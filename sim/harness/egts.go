package main

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"time"
)

// An independent implementation of the parts of EGTS that the checks need, written from the protocol
// description (order of the ministry of transport no. 285, GOST 54619), not from the code under test.

// Sub is one subrecord.
type Sub struct {
	K string  `json:"k"`
	V []int64 `json:"v,omitempty"`
	S string  `json:"s,omitempty"`
}

// Rec is one service data record.
type Rec struct {
	RN   uint16  `json:"rn"`
	OID  *uint32 `json:"oid,omitempty"`
	EvID *uint32 `json:"evid,omitempty"`
	TM   *uint32 `json:"tm,omitempty"`
	Fl   uint8   `json:"fl,omitempty"` // the upper five flag bits
	SST  uint8   `json:"sst"`
	RST  uint8   `json:"rst"`
	Subs []Sub   `json:"subs"`
	Rep  int     `json:"rep,omitempty"` // extra copies, numbered on
}

// Pkt is one packet.
type Pkt struct {
	PID   uint16 `json:"pid"`
	Type  uint8  `json:"type"`
	Route bool   `json:"route,omitempty"`
	PRA   uint16 `json:"pra,omitempty"`
	RCA   uint16 `json:"rca,omitempty"`
	TTL   uint8  `json:"ttl,omitempty"`
	SKID  uint8  `json:"skid,omitempty"`
	Odd   uint8  `json:"odd,omitempty"` // prefix, encryption and compression bits: only in packets that are damaged as well
	Prio  uint8  `json:"prio,omitempty"`
	HE    uint8  `json:"he,omitempty"`
	Recs  []Rec  `json:"recs,omitempty"`
	// response packets
	RPID uint16 `json:"rpid,omitempty"`
	PR   uint8  `json:"pr,omitempty"`
}

func crc8ref(b []byte) byte {
	c := byte(0xff)
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 0x31
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func crc16ref(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		c ^= uint16(x) << 8
		for i := 0; i < 8; i++ {
			if c&0x8000 != 0 {
				c = c<<1 ^ 0x1021
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func pbVar2(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func pbVar(b []byte, field int, v uint64) []byte { return pbVar2(append(b, byte(field<<3)), v) }

func le16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func le24(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func le32(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }

func (s *Sub) v(i int) int64 {
	if i < len(s.V) {
		return s.V[i]
	}
	return 0
}

const (
	flALTE = 0x80
	flLOHS = 0x40
	flLAHS = 0x20
)

func (s *Sub) encode() []byte {
	var t byte
	var b []byte
	switch s.K {
	case "pos": // ntm lat lon flags spd dir odm din src alt
		t = 16
		b = le32(b, uint32(s.v(0)))
		b = le32(b, uint32(s.v(1)))
		b = le32(b, uint32(s.v(2)))
		b = append(b, byte(s.v(3)))
		b = le16(b, uint16(s.v(4)))
		b = append(b, byte(s.v(5)))
		b = le24(b, uint32(s.v(6)))
		b = append(b, byte(s.v(7)), byte(s.v(8)))
		if byte(s.v(3))&flALTE != 0 {
			b = le24(b, uint32(s.v(9)))
		}
	case "ext": // flags vdop hdop pdop sat ns
		t = 17
		f := byte(s.v(0)) & 0x1f
		b = append(b, f)
		for i := 0; i < 3; i++ {
			if f>>i&1 != 0 {
				b = le16(b, uint16(s.v(1+i)))
			}
		}
		if f&8 != 0 {
			b = append(b, byte(s.v(4)))
		}
		if f&16 != 0 {
			b = le16(b, uint16(s.v(5)))
		}
	case "ads": // dioe dout asfe, 8 octets, 8 values
		t = 18
		b = append(b, byte(s.v(0)), byte(s.v(1)), byte(s.v(2)))
		for i := 0; i < 8; i++ {
			if s.v(0)>>i&1 != 0 {
				b = append(b, byte(s.v(3+i)))
			}
		}
		for i := 0; i < 8; i++ {
			if s.v(2)>>i&1 != 0 {
				b = le24(b, uint32(s.v(11+i)))
			}
		}
	case "cnt": // cfe, 8 counters
		t = 19
		b = append(b, byte(s.v(0)))
		for i := 0; i < 8; i++ {
			if s.v(0)>>i&1 != 0 {
				b = le24(b, uint32(s.v(1+i)))
			}
		}
	case "state20", "state21":
		t = 20
		if s.K == "state21" {
			t = 21
		}
		b = append(b, byte(s.v(0)), byte(s.v(1)), byte(s.v(2)), byte(s.v(3)), byte(s.v(4))&7)
	case "absan":
		t = 24
		b = append(b, byte(s.v(0)))
		b = le24(b, uint32(s.v(1)))
	case "abscnt":
		t = 25
		b = append(b, byte(s.v(0)))
		b = le24(b, uint32(s.v(1)))
	case "plus": // EGTS+ (protobuf): number time status, then (field, sensor, two values) each
		t = 15
		b = pbVar(b, 1, uint64(uint32(s.v(0))))
		b = le32(append(b, 2<<3|5), uint32(s.v(1)))
		for i := 3; i+3 < len(s.V); i += 4 {
			f, m := int(s.v(i)), []byte(nil)
			x, y := uint32(s.v(i+2)), uint32(s.v(i+3))
			if f == 3 { // reasons
				b = pbVar(b, 3, uint64(x&7))
				continue
			}
			m = pbVar(m, 1, uint64(s.v(i+1)))
			switch f {
			case 7: // navigation
				m = le32(append(m, 2<<3|5), x)
				m = le32(append(m, 3<<3|5), y)
				m = pbVar(m, 5, uint64(x&0xff))
			case 8: // fuel level
				m = le32(append(m, 2<<3|5), y)
				m = pbVar(m, 3, uint64(x))
			case 20: // bytes
				m = append(m, 2<<3|2, byte(x&63))
				m = append(m, make([]byte, x&63)...)
			case 13, 14, 16, 18, 21, 22, 23, 24:
			default:
				m = pbVar(m, 2, uint64(x))
				if f != 9 && f != 11 && f != 12 {
					m = pbVar(m, 3, uint64(y))
				}
			}
			b = pbVar2(b, uint64(f)<<3|2)
			b = pbVar2(b, uint64(len(m)))
			b = append(b, m...)
		}
		b = le32(append(b, 4<<3|5), uint32(s.v(2)))
	case "liq": // flags maddr data
		t = 27
		b = append(b, byte(s.v(0)))
		b = le16(b, uint16(s.v(1)))
		b = le32(b, uint32(s.v(2)))
	case "term": // tid flags hdid nid bs ; S = imei
		t = 1
		f := byte(s.v(1))
		b = le32(b, uint32(s.v(0)))
		b = append(b, f)
		if f&1 != 0 {
			b = le16(b, uint16(s.v(2)))
		}
		if f&2 != 0 {
			b = append(b, fixed(s.S, 15)...)
		}
		if f&4 != 0 {
			b = append(b, fixed("2500112233445566", 16)...)
		}
		if f&8 != 0 {
			b = append(b, "rus"...)
		}
		if f&32 != 0 {
			b = le24(b, uint32(s.v(3)))
		}
		if f&64 != 0 {
			b = le16(b, uint16(s.v(4)))
		}
		if f&128 != 0 {
			b = append(b, fixed("79990001122", 15)...)
		}
	case "auth":
		t = 7
		b = append(b, s.S...)
		b = append(b, 0)
		b = append(b, "800"...)
		b = append(b, 0)
		if s.v(0) != 0 {
			b = append(b, "seq"...)
			b = append(b, 0)
		}
	case "resp": // crn rst
		t = 0
		b = le16(b, uint16(s.v(0)))
		b = append(b, byte(s.v(1)))
	case "rescode":
		t = 9
		b = append(b, byte(s.v(0)))
	case "disp":
		t = 5
		b = append(b, byte(s.v(0)))
		b = le32(b, uint32(s.v(1)))
		b = append(b, s.S...)
	case "raw": // type, hex in S
		t = byte(s.v(0))
		b, _ = hex.DecodeString(s.S)
	default:
		panic("sub " + s.K)
	}
	r := []byte{t}
	r = le16(r, uint16(len(b)))
	return append(r, b...)
}

func fixed(s string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = ' '
	}
	copy(b, s)
	return b
}

func (r *Rec) encode() []byte {
	var d []byte
	for i := range r.Subs {
		d = append(d, r.Subs[i].encode()...)
	}
	var b []byte
	b = le16(b, uint16(len(d)))
	b = le16(b, r.RN)
	f := r.Fl & 0xf8
	if r.OID != nil {
		f |= 1
	}
	if r.EvID != nil {
		f |= 2
	}
	if r.TM != nil {
		f |= 4
	}
	b = append(b, f)
	if r.OID != nil {
		b = le32(b, *r.OID)
	}
	if r.EvID != nil {
		b = le32(b, *r.EvID)
	}
	if r.TM != nil {
		b = le32(b, *r.TM)
	}
	b = append(b, r.SST, r.RST)
	return append(b, d...)
}

// records with the repetitions written out
func (p *Pkt) records() []Rec {
	var rs []Rec
	for _, r := range p.Recs {
		rs = append(rs, r)
		for k := 1; k <= r.Rep; k++ {
			q := r
			q.RN = r.RN + uint16(k)
			q.Subs = make([]Sub, len(r.Subs))
			for i, s := range r.Subs {
				q.Subs[i] = Sub{s.K, append([]int64(nil), s.V...), s.S}
				if s.K == "pos" {
					q.Subs[i].V[0] += int64(k)
					q.Subs[i].V[1] = int64(uint32(s.V[1]) + uint32(k)*7919)
				}
			}
			rs = append(rs, q)
		}
	}
	return rs
}

func (p *Pkt) body() []byte {
	var b []byte
	if p.Type == 0 {
		b = le16(b, p.RPID)
		b = append(b, p.PR)
	}
	rs := p.records()
	for i := range rs {
		b = append(b, rs[i].encode()...)
	}
	return b
}

func (p *Pkt) headerLen() int {
	if p.Route {
		return 16
	}
	return 11
}

func (p *Pkt) encode() []byte {
	body := p.body()
	if len(body) > 65535 {
		panic("packet too long")
	}
	return frame(p, body)
}

func frame(p *Pkt, body []byte) []byte {
	fl := p.Prio&3 | p.Odd&0xdc
	if p.Route {
		fl |= 0x20
	}
	b := []byte{1, p.SKID, fl, byte(p.headerLen()), p.HE}
	b = le16(b, uint16(len(body)))
	b = le16(b, p.PID)
	b = append(b, p.Type)
	if p.Route {
		b = le16(b, p.PRA)
		b = le16(b, p.RCA)
		b = append(b, p.TTL)
	}
	b = append(b, crc8ref(b))
	if len(body) > 0 {
		b = append(b, body...)
		b = le16(b, crc16ref(body))
	}
	return b
}

func (p *Pkt) hasPos() bool {
	for i := range p.Recs {
		for j := range p.Recs[i].Subs {
			if p.Recs[i].Subs[j].K == "pos" {
				return true
			}
		}
	}
	return false
}

func (p *Pkt) hasAuth() bool {
	for i := range p.Recs {
		for j := range p.Recs[i].Subs {
			if k := p.Recs[i].Subs[j].K; k == "term" || k == "auth" {
				return true
			}
		}
	}
	return false
}

// ---- the reference model of a stored record -----------------------------------------------------

type LocM struct {
	Lat, Lng float64
	Speed    int
	Dt       string
}
type AnM struct {
	N int
	V int64
}
type LiqM struct {
	N, Mod    int
	Err, Unit string
	Mm        int64
	L         float64
}
type RecordM struct {
	IMEI     string
	Client   uint32
	PacketID uint32
	Nav      int64
	An       []AnM
	Liq      []LiqM
	Loc      []LocM
	// position records of more than one object in the packet: the known finding
	Mixed bool
}

const epoch2010 = 1262304000

func (p *Pkt) model() *RecordM {
	m := &RecordM{PacketID: uint32(p.PID)}
	first := true
	for _, r := range p.records() {
		var c110, c111 uint32
		for i := range r.Subs {
			s := &r.Subs[i]
			switch s.K {
			case "term":
				if s.v(1)&2 != 0 {
					m.IMEI = string(fixed(s.S, 15))
				}
			case "pos":
				oid := uint32(0)
				if r.OID != nil {
					oid = *r.OID
				}
				if !first && oid != m.Client {
					m.Mixed = true
				}
				first = false
				m.Client = oid
				nav := epoch2010 + s.v(0)
				m.Nav = nav
				la := float64(uint32(s.v(1))) * 90 / 4294967295
				lo := float64(uint32(s.v(2))) * 180 / 4294967295
				if s.v(3)&flLAHS != 0 {
					la = -la
				}
				if s.v(3)&flLOHS != 0 {
					lo = -lo
				}
				m.Loc = append(m.Loc, LocM{la, lo, int(uint16(s.v(4))&0x3fff) / 10, time.Unix(nav, 0).UTC().Format(time.RFC3339)})
			case "ads":
				for i := 0; i < 8; i++ {
					if s.v(2)>>i&1 != 0 {
						m.An = append(m.An, AnM{i + 1, s.v(11+i) & 0xffffff})
					}
				}
			case "absan":
				m.An = append(m.An, AnM{int(s.v(0) & 0xff), s.v(1) & 0xffffff})
			case "abscnt":
				switch s.v(0) {
				case 110:
					c110 = uint32(s.v(1)) & 0xffffff
					m.PacketID = c110 | c111
				case 111:
					c111 = uint32(s.v(1)) << 24
					m.PacketID = c110 | c111
				}
			case "liq":
				f := s.v(0)
				l := LiqM{N: int(f & 7), Mod: int(uint16(s.v(1))), Err: fmt.Sprint(f >> 6 & 1), Unit: fmt.Sprintf("%02b", f>>4&3)}
				switch l.Unit {
				case "00", "01":
					l.Mm = s.v(2) & 0xffffffff
				case "10":
					l.L = float64(s.v(2)&0xffffffff) / 10
				}
				m.Liq = append(m.Liq, l)
			}
		}
	}
	return m
}

// ---- decoding what the receiver sends --------------------------------------------------------------

type Ans struct {
	Type    byte
	PID     uint16
	RPID    uint16
	PR      byte
	CRN     []uint16
	RST     []byte
	Codes   []byte // result codes
	Other   int    // other subrecords
	Records int
	End     int // offset after the packet in the stream
}

func (a *Ans) String() string {
	if a.Type == 0 {
		return fmt.Sprintf("response(to %d, result %d, confirms %v %v)", a.RPID, a.PR, a.CRN, a.RST)
	}
	return fmt.Sprintf("data(codes %v, %d records, %d other)", a.Codes, a.Records, a.Other)
}

var errShort = errors.New("incomplete")

// parseAnswer decodes the first packet of b. errShort: more bytes are needed.
func parseAnswer(b []byte) (*Ans, int, error) {
	if len(b) < 1 {
		return nil, 0, errShort
	}
	if b[0] != 1 {
		return nil, 0, fmt.Errorf("protocol version byte is %d", b[0])
	}
	if len(b) < 11 {
		return nil, 0, errShort
	}
	hl := int(b[3])
	route := b[2]&0x20 != 0
	if hl != 11 && !(hl == 16 && route) || hl == 11 && route {
		return nil, 0, fmt.Errorf("header length %d does not fit the flags %#x", hl, b[2])
	}
	if b[2]&0xdc != 0 {
		return nil, 0, fmt.Errorf("flags %#x say encrypted, compressed or a later version", b[2])
	}
	if len(b) < hl {
		return nil, 0, errShort
	}
	if crc8ref(b[:hl-1]) != b[hl-1] {
		return nil, 0, errors.New("wrong header checksum")
	}
	fdl := int(binary.LittleEndian.Uint16(b[5:]))
	n := hl
	if fdl > 0 {
		n += fdl + 2
	}
	if len(b) < n {
		return nil, 0, errShort
	}
	a := &Ans{Type: b[9], PID: binary.LittleEndian.Uint16(b[7:])}
	if fdl == 0 {
		return nil, 0, errors.New("packet without data")
	}
	body := b[hl : hl+fdl]
	if crc16ref(body) != binary.LittleEndian.Uint16(b[hl+fdl:]) {
		return nil, 0, errors.New("wrong data checksum")
	}
	switch a.Type {
	case 0:
		if len(body) < 3 {
			return nil, 0, errors.New("response shorter than 3 bytes")
		}
		a.RPID = binary.LittleEndian.Uint16(body)
		a.PR = body[2]
		body = body[3:]
	case 1:
	default:
		return nil, 0, fmt.Errorf("packet type %d", a.Type)
	}
	for len(body) > 0 {
		if len(body) < 7 {
			return nil, 0, errors.New("cut record header")
		}
		rl := int(binary.LittleEndian.Uint16(body))
		f := body[4]
		o := 5
		for i := 0; i < 3; i++ {
			if f>>i&1 != 0 {
				o += 4
			}
		}
		o += 2
		if len(body) < o+rl {
			return nil, 0, errors.New("record longer than the packet")
		}
		d := body[o : o+rl]
		body = body[o+rl:]
		a.Records++
		for len(d) > 0 {
			if len(d) < 3 || len(d) < 3+int(binary.LittleEndian.Uint16(d[1:])) {
				return nil, 0, errors.New("subrecord longer than the record")
			}
			l := int(binary.LittleEndian.Uint16(d[1:]))
			s := d[3 : 3+l]
			switch d[0] {
			case 0:
				if l != 3 {
					return nil, 0, fmt.Errorf("record response of %d bytes", l)
				}
				a.CRN = append(a.CRN, binary.LittleEndian.Uint16(s))
				a.RST = append(a.RST, s[2])
			case 9:
				if l != 1 {
					return nil, 0, fmt.Errorf("result code of %d bytes", l)
				}
				a.Codes = append(a.Codes, s[0])
			default:
				a.Other++
			}
			d = d[3+l:]
		}
	}
	return a, n, nil
}
