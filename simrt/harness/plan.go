package main

import (
	"encoding/json"
	"strconv"
	"strings"

	"gRedis/verifsim/sim"
	"gRedis/verifsim/sos"
)

// Bin is a byte string that survives JSON; long periodic ones are written as a repetition.
type Bin string

func (b Bin) MarshalJSON() ([]byte, error) {
	s := string(b)
	if len(s) > 200 {
		for p := 1; p <= 64; p++ {
			ok := true
			for i := p; i < len(s); i++ {
				if s[i] != s[i-p] {
					ok = false
					break
				}
			}
			if ok {
				return json.Marshal("r:" + strconv.Itoa(len(s)) + ":" + strconv.QuoteToASCII(s[:p]))
			}
		}
	}
	return json.Marshal("q:" + quoteBytes(s))
}

func quoteBytes(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 0x20 && c < 0x7f && c != '"' && c != '\\' {
			b.WriteByte(c)
		} else {
			b.WriteString("\\x")
			b.WriteByte("0123456789abcdef"[c>>4])
			b.WriteByte("0123456789abcdef"[c&15])
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (b *Bin) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "r:") {
		p := strings.SplitN(s, ":", 3)
		n, _ := strconv.Atoi(p[1])
		u, err := strconv.Unquote(p[2])
		if err != nil {
			return err
		}
		*b = Bin(periodic(u, n))
		return nil
	}
	u, err := strconv.Unquote(strings.TrimPrefix(s, "q:"))
	*b = Bin(u)
	return err
}

func periodic(u string, n int) string {
	return strings.Repeat(u, n/len(u)+1)[:n]
}

// Op is one step of a client.
type Op struct {
	K    string  `json:"k"`              // cmd, part, raw, sleep, half, halfleft, bad, close, reset, dial, drain
	A    []Bin   `json:"a,omitempty"`    // cmd, part
	Raw  Bin     `json:"raw,omitempty"`  // raw
	N    int     `json:"n,omitempty"`    // part: bytes sent
	Us   int64   `json:"us,omitempty"`   // sleep: microseconds
	Cut  []int   `json:"cut,omitempty"`  // offsets at which the bytes are split into segments
	Dly  []int64 `json:"dly,omitempty"`  // delay of each segment, microseconds
	Pipe bool    `json:"pipe,omitempty"` // do not wait for the reply
	Hold int     `json:"hold,omitempty"` // cmd: after that many bytes, wait for every earlier reply before sending the rest
}

type ClientPlan struct {
	Name     string `json:"name"`
	Ops      []Op   `json:"ops"`
	OutUs    int64  `json:"out_us,omitempty"`  // delay of replies
	FailW    int64  `json:"failw,omitempty"`   // connection breaks after that many reply bytes (0: never)
	RecvMax  int    `json:"recvmax,omitempty"` // bytes per read of the client
	RecvUs   int64  `json:"recvus,omitempty"`  // pause before each read
	Hostile  bool   `json:"hostile,omitempty"` // replies are not judged
	Faulty   bool   `json:"faulty,omitempty"`  // its connection may be broken by its own faults
	LateDial bool   `json:"late,omitempty"`    // dials when it starts, not at the barrier
}

type Sig struct {
	AtUs int64  `json:"at_us"`          // after the clients start
	Sig  string `json:"sig"`            // INT, TERM, KILL
	Spin int    `json:"spin,omitempty"` // scheduling points the sender passes before sending
}

// LogOp is one message of a logging goroutine.
type LogOp struct {
	Lvl   int    `json:"lvl"`
	Tok   string `json:"tok"`
	Sleep int64  `json:"us,omitempty"`
}

// Plan is one complete simulated run: everything that happens is in here.
type Plan struct {
	Prop    string         `json:"prop"`
	Kind    string         `json:"kind"`
	Seed    uint64         `json:"seed"`
	Args    []string       `json:"args"`
	Conf    *Bin           `json:"conf,omitempty"`
	DbNum   int            `json:"dbnum"`
	Port    int            `json:"port"`
	Pol     sim.Policy     `json:"pol"`
	MapSeed uint64         `json:"mapseed"`
	StartUs int64          `json:"start_us"` // offset of the clock from the epoch
	Window  int            `json:"window,omitempty"`
	NoCoal  bool           `json:"nocoal,omitempty"`
	RstDrop bool           `json:"rstdrop,omitempty"`
	Setup   []Op           `json:"setup,omitempty"`
	Clients []ClientPlan   `json:"clients,omitempty"`
	Final   []Op           `json:"final,omitempty"`
	Disk    []*sos.Fault   `json:"disk,omitempty"`
	Accept  map[int]string `json:"accept,omitempty"`
	Listen  map[int]string `json:"listen,omitempty"`
	Sigs    []Sig          `json:"sigs,omitempty"`
	Logs    [][]LogOp      `json:"logs,omitempty"`
	Logs2   [][]LogOp      `json:"logs2,omitempty"`
	Level   string         `json:"level,omitempty"`
	SegNums []int          `json:"segnums,omitempty"`
	DbNums  []int          `json:"dbnums,omitempty"`
	Keys    []Bin          `json:"keys,omitempty"`
	KillAt  int            `json:"killat,omitempty"`
	LogPre  int            `json:"logpre,omitempty"` // bytes already in the log file
	Limit   uint64         `json:"limit"`

	Explicit bool           `json:"explicit,omitempty"`
	Decs     []sim.Decision `json:"decs,omitempty"`

	// filled into replay files
	Want string `json:"violation,omitempty"`
	Text string `json:"violation_text,omitempty"`
	Hash string `json:"trace,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func sargs(a []Bin) []string {
	r := make([]string, len(a))
	for i, x := range a {
		r[i] = string(x)
	}
	return r
}

func cmd(a ...string) Op {
	o := Op{K: "cmd"}
	for _, x := range a {
		o.A = append(o.A, Bin(x))
	}
	return o
}
func sleepUs(us int64) Op { return Op{K: "sleep", Us: us} }
