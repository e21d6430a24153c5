package main

import (
	"encoding/hex"
	"time"
)

// A Plan says everything about one simulated run: what terminals send and when, how the network cuts
// and delays it, what the storages do, which faults strike, and how the scheduler decides. The same
// plan on the same code is the same run, step by step.
type Plan struct {
	Check   string        `json:"check"`
	Kind    string        `json:"kind"`
	Seed    uint64        `json:"seed"`
	Start   int64         `json:"start"` // unix nanoseconds
	Zone    int           `json:"zone,omitempty"`
	Jumps   [][2]int64    `json:"clock_us,omitempty"` // from [0] on the wall clock of the machine under test is off by [1]
	Debug   bool          `json:"debug,omitempty"`
	TTLus   int64         `json:"ttl_us,omitempty"`
	Sched   Sched         `json:"sched"`
	Stores  []Store       `json:"stores,omitempty"`
	Conns   []*Conn       `json:"conns,omitempty"`
	Accept  []AcceptFault `json:"accept,omitempty"`
	NoFile  [][2]int64    `json:"nofile_us,omitempty"` // the receiver can get no new descriptors
	NoLog   [][3]int64    `json:"nolog_us,omitempty"`  // what it writes to standard output and error fails but for the first [2] bytes
	StopUs  int64         `json:"stop_us,omitempty"`
	StopAcc int           `json:"stop_acc,omitempty"` // or already when that many connections have been taken
	Horizon int64         `json:"horizon_us"`
	Settle  int64         `json:"settle_us,omitempty"`

	// whole-process setups
	Backends []Backend `json:"backends,omitempty"`
	Events   []Event   `json:"events,omitempty"`
	Terms    []*Term   `json:"terms,omitempty"`
	Net      Profile   `json:"net"`
	Limit    int64     `json:"limit_us,omitempty"` // terminals must be done this long after the last fault
	Gens     []GenPlan `json:"gens,omitempty"`
	Own      int64     `json:"own_us,omitempty"` // what storing a record may take
	Cfg      string    `json:"cfg,omitempty"`
	Addr     string    `json:"addr,omitempty"` // where the receiver is to listen
	QuietLog bool      `json:"quiet_log,omitempty"`
	Mem      bool      `json:"mem,omitempty"` // what the receiver holds in memory is looked at
}

func (p *Plan) addr() string {
	if p.Addr != "" {
		return p.Addr
	}
	return addr
}

type Sched struct {
	Policy  int        `json:"policy"`
	Preempt int        `json:"preempt,omitempty"`
	Seed    uint64     `json:"seed,omitempty"`
	Devs    [][3]int64 `json:"devs,omitempty"`
}

// Store is a storage that accepts, delays and refuses records as told.
type Store struct {
	MaxDelay int64   `json:"max_delay_us,omitempty"`
	FailNum  int     `json:"fail_num,omitempty"`     // of 16
	FailFrom int64   `json:"fail_from_us,omitempty"` // every record in the window is refused
	FailTo   int64   `json:"fail_to_us,omitempty"`
	SlowKeys []int64 `json:"slow_keys,omitempty"` // records (navigation times) stored slowly
	SlowUs   int64   `json:"slow_us,omitempty"`
}

// Item is a piece of the byte stream of a terminal.
//
//	V valid packet   R response packet   Dh, Db valid packet with header or body bits flipped
//	Dx packet whose length fields are damaged   M malformed packet with correct checksums
//	G bytes that are not the protocol   T beginning of a valid packet
type Item struct {
	K    string `json:"k"`
	Pkt  *Pkt   `json:"pkt,omitempty"`
	Raw  string `json:"raw,omitempty"`
	Cut  int    `json:"cut,omitempty"`
	Flip []int  `json:"flip,omitempty"` // bit numbers
}

func (it *Item) bytes() []byte {
	switch it.K {
	case "V", "R":
		return it.Pkt.encode()
	case "T":
		b := it.Pkt.encode()
		n := it.Cut
		if n >= len(b) {
			n = len(b) - 1
		}
		return b[:n]
	case "Dh", "Db":
		b := it.Pkt.encode()
		for _, f := range it.Flip {
			b[f/8] ^= 1 << (f % 8)
		}
		return b
	}
	b, err := hex.DecodeString(it.Raw)
	if err != nil {
		panic(err)
	}
	return b
}

// Op is a step of a terminal.
//
//	send item I (cut at Cuts, Us between the pieces)   sleep Us   wait until I answers came, at most Us
//	half  close  reset  black   stallup/stalldown Us   awaitclose at most Us
type Op struct {
	K    string `json:"k"`
	I    int    `json:"i,omitempty"`
	Us   int64  `json:"us,omitempty"`
	Cuts []int  `json:"cuts,omitempty"`
	// of "send"
	Glue  bool  `json:"glue,omitempty"`     // the first piece goes together with the last one of the send before it
	Await int   `json:"await,omitempty"`    // after the first piece the terminal waits for so many answers in all,
	Limit int64 `json:"limit_us,omitempty"` // but not longer than this
}

// Conn is one connection of a terminal.
type Conn struct {
	ID    int     `json:"id"`
	Class string  `json:"class,omitempty"`
	Start int64   `json:"start_us"`
	Up    Profile `json:"up"`
	Down  Profile `json:"down"`
	Items []Item  `json:"items"`
	Ops   []Op    `json:"ops"`
	// how answers are read: 0 at once, >0 not before that many microseconds, <0 never
	ReadAt int64 `json:"read_at_us,omitempty"`
	// >0: this many bytes every ReadEvery
	ReadBytes int   `json:"read_bytes,omitempty"`
	ReadEvery int64 `json:"read_every_us,omitempty"`
}

func us(n int64) time.Duration { return time.Duration(n) * time.Microsecond }

// Exp is what one piece of the stream must lead to.
type Exp struct {
	Item  int
	K     string
	End   int // stream offset after it
	Begin int
	PID   uint16
	Code  byte
	RNs   []uint16
	Auth  bool
	Pos   bool
	Model *RecordM
	Key   int64
	Soft  bool // nothing is demanded any more
}

// stream lists the items in the order sent with their bytes.
func (c *Conn) stream() (exps []Exp, stop string, stopAt int) {
	off := 0
	stopAt = -1
	for _, op := range c.Ops {
		if op.K != "send" || op.I >= len(c.Items) {
			continue
		}
		it := &c.Items[op.I]
		n := len(it.bytes())
		e := Exp{Item: op.I, K: it.K, Begin: off, End: off + n}
		off += n
		if stop == "G" || stop == "T" {
			e.K = "after"
			if it.Pkt != nil {
				e.Key = it.Pkt.model().Nav
			}
			exps = append(exps, e)
			continue
		}
		e.Soft = stop != ""
		switch it.K {
		case "V":
			p := it.Pkt
			e.PID = p.PID
			for _, r := range p.records() {
				e.RNs = append(e.RNs, r.RN)
			}
			e.Auth = p.hasAuth()
			e.Pos = p.hasPos()
			e.Model = p.model()
			e.Key = e.Model.Nav
		case "Dh", "Db":
			b := it.bytes()
			e.PID = uint16(b[7]) | uint16(b[8])<<8
			e.Code = 138
			if it.K == "Dh" {
				e.Code = 137
			}
			e.Key = it.Pkt.model().Nav
		case "E":
			b := it.bytes()
			e.PID = uint16(b[7]) | uint16(b[8])<<8
		case "G", "T", "Dx", "M":
			if stop == "" {
				stop = it.K
				stopAt = e.Begin
			}
			if it.Pkt != nil {
				e.Key = it.Pkt.model().Nav
			}
		}
		exps = append(exps, e)
	}
	return
}
