package main

import "encoding/json"

// The driver handles plans as the worker writes them; what it does not edit
// stays as it is.

type Segment struct {
	T int   `json:"t"`
	N int64 `json:"n"`
}

type Strategy struct {
	Kind   string    `json:"kind"`
	Mean   int       `json:"mean,omitempty"`
	Depth  int       `json:"depth,omitempty"`
	Est    int64     `json:"est,omitempty"`
	Hot    []uint32  `json:"hot,omitempty"`
	HotP   int       `json:"hotp,omitempty"`
	Replay []Segment `json:"replay,omitempty"`
}

type Plan struct {
	Prop   string            `json:"prop"`
	Seed   uint64            `json:"seed"`
	Pool   string            `json:"pool,omitempty"`
	PoolS  uint64            `json:"pools,omitempty"`
	MapS   uint64            `json:"maps,omitempty"`
	Sector int               `json:"sector,omitempty"`
	Shared []json.RawMessage `json:"shared,omitempty"`
	Inputs []json.RawMessage `json:"inputs,omitempty"`
	Phases []Phase           `json:"phases"`
	Cost   bool              `json:"cost,omitempty"`
	Arena  bool              `json:"arena,omitempty"`
	Vary   bool              `json:"vary,omitempty"`
}

type Phase struct {
	Restart bool     `json:"restart,omitempty"`
	GC      bool     `json:"gc,omitempty"`
	KillAt  int64    `json:"kill,omitempty"`
	Skew    int64    `json:"skew,omitempty"`
	GCAt    []int64  `json:"gcat,omitempty"`
	Strat   Strategy `json:"strat"`
	Clients [][]Op   `json:"clients"`
}

// Op is kept as its JSON object.
type Op map[string]any

type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Phase  int    `json:"phase"`
	Client int    `json:"client"`
	Op     int    `json:"op"`
	Step   int64  `json:"step"`
}

type ReplayFile struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	VerifSeed uint64     `json:"verif_seed"`
	Run       int        `json:"run"`
	Race      bool       `json:"race"`
	History   []int      `json:"history,omitempty"`
	Plan      *Plan      `json:"plan,omitempty"`
	Note      string     `json:"note,omitempty"`
}

type Result struct {
	Runs     int64            `json:"runs"`
	First    int              `json:"first"`
	Step     int              `json:"step"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	Preempts int64            `json:"preempts"`
	Stats    map[string]int64 `json:"stats"`
	Hashes   []uint64         `json:"hashes"`
	Digests  []uint64         `json:"digests"`
	NonTriv  []uint64         `json:"nontriv"`
	Conc     int64            `json:"conc"`
	Sites    []uint32         `json:"sites"`
	Pool     [5]int64         `json:"pool"`
	Trace    []uint64         `json:"trace"`
	Race     bool             `json:"race"`
	Level    int              `json:"level"`
	NumSites int              `json:"numsites"`
	Wall     float64          `json:"wall"`
	Strats   map[string]int64 `json:"strats"`
	Viol     *Violation       `json:"viol,omitempty"`
	Run      int              `json:"run"`
	Plan     *Plan            `json:"plan,omitempty"`
}
