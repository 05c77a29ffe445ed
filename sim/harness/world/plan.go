// Package world holds the simulated applications which use the library: what
// they do, the faults they meet, and the checks on everything they observe.
package world

import (
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

// Plan is one simulated execution, complete: the same plan gives the same run.
type Plan struct {
	Prop   string  `json:"prop"`
	Seed   uint64  `json:"seed"`
	Pool   string  `json:"pool,omitempty"`
	PoolS  uint64  `json:"pools,omitempty"`
	MapS   uint64  `json:"maps,omitempty"`
	Sector int     `json:"sector,omitempty"`
	Shared []Spec  `json:"shared,omitempty"` // values handed to several calls
	Inputs []Input `json:"inputs,omitempty"` // byte slices handed to several calls
	Arena  bool    `json:"arena,omitempty"`  // these lie in one array
	Phases []Phase `json:"phases"`
	Cost   bool    `json:"cost,omitempty"` // check cost and memory over the history
	Vary   bool    `json:"vary,omitempty"` // with other values in every call
}

type Phase struct {
	Restart bool           `json:"restart,omitempty"` // a new process: nothing but the disk survives
	GC      bool           `json:"gc,omitempty"`      // pools are emptied
	KillAt  int64          `json:"kill,omitempty"`    // the process dies at this step
	Skew    int64          `json:"skew,omitempty"`    // the clock jumps by that many microseconds before
	GCAt    []int64        `json:"gcat,omitempty"`    // garbage is collected at these steps, pools are emptied
	Strat   simrt.Strategy `json:"strat"`
	Clients [][]Op         `json:"clients"`
}

// Spec is a value to be encoded.
type Spec struct {
	T    string `json:"t,omitempty"`
	V    uint64 `json:"v,omitempty"`
	Z    int    `json:"z,omitempty"`
	Cyc  string `json:"cyc,omitempty"` // instead: a value which refers to itself, of this kind
	N    int    `json:"n,omitempty"`
	Wild bool   `json:"wild,omitempty"`
	Sp   bool   `json:"sp,omitempty"`
	Ptr  bool   `json:"ptr,omitempty"`
	Odd  bool   `json:"odd,omitempty"` // the bytes of MarshalPHP methods are no encoding of anything
}

// Input is a byte sequence to be decoded.
type Input struct {
	Spec
	Twist uint64   `json:"tw,omitempty"`
	Shuf  uint64   `json:"sh,omitempty"`
	Deep  int      `json:"deep,omitempty"` // nesting around it
	Open  int      `json:"open,omitempty"` // how the levels begin
	Obj   bool     `json:"obj,omitempty"`  // the nesting is of objects
	Unk   bool     `json:"unk,omitempty"`  // all of it under an unknown key
	Long  int      `json:"long,omitempty"` // a list of so many of them
	Dm    []Damage `json:"dm,omitempty"`
}

type Damage struct {
	K string `json:"k"`
	A uint64 `json:"a"`
	B uint64 `json:"b,omitempty"`
}

type CB struct {
	Mode string `json:"m,omitempty"`  // err, errbytes, panic, goexit, stall, reenter
	V    int    `json:"v,omitempty"`  // which error, which panic
	At   int    `json:"at,omitempty"` // n-th call, 0 every call
	N    int64  `json:"n,omitempty"`
	Buf  string `json:"buf,omitempty"` // reuse, spare, const / scribble, append, retain
	Nest *Op    `json:"nest,omitempty"`
}

type Op struct {
	K   string `json:"k"` // marshal unmarshal put get own probe heap check
	In  Input  `json:"in"`
	Sh  int    `json:"sh,omitempty"`  // 1+index of a shared value or input
	D   string `json:"d,omitempty"`   // destination type
	Dst int    `json:"dst,omitempty"` // 1+slot, 0 a new variable
	Pre uint64 `json:"pre,omitempty"` // contents of the new variable
	CB  CB     `json:"cb"`
	R   int    `json:"r,omitempty"` // record
	M   string `json:"m,omitempty"`
	Rep int    `json:"rep,omitempty"`
	Var bool   `json:"var,omitempty"` // with another value each time
}

// Violation of the property.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Phase  int    `json:"phase"`
	Client int    `json:"client"`
	Op     int    `json:"op"`
	Step   int64  `json:"step"`
}

// Outcome of one simulated execution.
type Outcome struct {
	Viol     *Violation        `json:"viol,omitempty"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	Preempts int64             `json:"preempts"`
	Hash     uint64            `json:"hash"`   // schedule
	Digest   uint64            `json:"digest"` // everything observed
	Stats    map[string]int64  `json:"stats"`
	Scheds   [][]simrt.Segment `json:"scheds,omitempty"`
}
