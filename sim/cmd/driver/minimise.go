package main

import (
	"bytes"
	"encoding/json"

	"sync"
	"time"
)

func decode(b []byte, v any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		trouble("%v", err)
	}
	var q Plan
	if err := decode(b, &q); err != nil {
		trouble("%v", err)
	}
	return &q
}

// minimiser shrinks a plan while the same kind of violation shows.
type minimiser struct {
	kind  string
	rf    *ReplayFile
	until time.Time
	lim   time.Duration
	n     int
}

func (m *minimiser) over() bool { return time.Now().After(m.until) }

// first tries candidates side by side and takes the first which still fails.
func (m *minimiser) first(cands []*ReplayFile) bool {
	for len(cands) > 0 && !m.over() {
		k := workers
		if k > len(cands) {
			k = len(cands)
		}
		ok := make([]*Violation, k)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				v, _, _ := try(cands[i], m.lim)
				if v != nil && v.Kind == "race" {
					v, _, _ = try(cands[i], m.lim) // twice in a row
				}
				if v != nil && v.Kind == m.kind {
					ok[i] = v
				}
			}(i)
		}
		wg.Wait()
		m.n += k
		for i := range ok {
			if ok[i] != nil {
				*m.rf = *cands[i]
				m.rf.Violation = ok[i]
				return true
			}
		}
		cands = cands[k:]
	}
	return false
}

func (m *minimiser) edit(f func(p *Plan) bool) *ReplayFile {
	c := *m.rf
	c.Plan = m.rf.Plan.clone()
	if !f(c.Plan) {
		return nil
	}
	return &c
}

func (m *minimiser) run() {
	if len(m.rf.History) > 0 {
		for len(m.rf.History) > 0 && !m.over() {
			h := m.rf.History
			var cs []*ReplayFile
			for n := (len(h) + 1) / 2; n >= 1; n /= 2 {
				for i := 0; i < len(h); i += n {
					c := *m.rf
					c.History = append(append([]int(nil), h[:i]...), h[min(i+n, len(h)):]...)
					cs = append(cs, &c)
				}
			}
			if len(cs) > 64 {
				cs = cs[:64]
			}
			if !m.first(cs) {
				break
			}
		}
	}
	for changed := true; changed && !m.over(); {
		changed = false
		for _, pass := range []func() []*ReplayFile{m.schedules, m.phases, m.clients, m.ops, m.knobs, m.fields, m.segments} {
			for !m.over() {
				if !m.first(pass()) {
					break
				}
				changed = true
			}
		}
	}
}

func keepAll(l []*ReplayFile) []*ReplayFile {
	var r []*ReplayFile
	for _, c := range l {
		if c != nil {
			r = append(r, c)
		}
	}
	return r
}

func (m *minimiser) schedules() (l []*ReplayFile) {
	for i := range m.rf.Plan.Phases {
		if m.rf.Plan.Phases[i].Strat.Kind != "serial" {
			l = append(l, m.edit(func(p *Plan) bool { p.Phases[i].Strat = Strategy{Kind: "serial"}; return true }))
		}
	}
	return keepAll(l)
}

func (m *minimiser) phases() (l []*ReplayFile) {
	n := len(m.rf.Plan.Phases)
	for i := 0; i < n && n > 1; i++ {
		l = append(l, m.edit(func(p *Plan) bool {
			p.Phases = append(p.Phases[:i], p.Phases[i+1:]...)
			return true
		}))
	}
	return keepAll(l)
}

func (m *minimiser) clients() (l []*ReplayFile) {
	for i, ph := range m.rf.Plan.Phases {
		for j := range ph.Clients {
			if len(ph.Clients[j]) == 0 {
				continue
			}
			// emptied, so that the others keep their numbers
			l = append(l, m.edit(func(p *Plan) bool { p.Phases[i].Clients[j] = []Op{}; return true }))
			l = append(l, m.edit(func(p *Plan) bool {
				c := p.Phases[i].Clients
				p.Phases[i].Clients = append(c[:j], c[j+1:]...)
				return len(p.Phases[i].Clients) > 0
			}))
		}
	}
	return keepAll(l)
}

func (m *minimiser) ops() (l []*ReplayFile) {
	big := 0
	for _, ph := range m.rf.Plan.Phases {
		for _, c := range ph.Clients {
			big = max(big, len(c))
		}
	}
	for n := (big + 1) / 2; n >= 1; n /= 2 {
		for i, ph := range m.rf.Plan.Phases {
			for j, c := range ph.Clients {
				for k := 0; k < len(c); k += n {
					if n > 1 && n > len(c) {
						continue
					}
					l = append(l, m.edit(func(p *Plan) bool {
						o := p.Phases[i].Clients[j]
						p.Phases[i].Clients[j] = append(o[:k:k], o[min(k+n, len(o)):]...)
						return true
					}))
				}
			}
		}
	}
	return keepAll(l)
}

func (m *minimiser) knobs() (l []*ReplayFile) {
	if m.rf.Plan.Pool != "lifo" {
		l = append(l, m.edit(func(p *Plan) bool { p.Pool = "lifo"; return true }))
	}
	for i, ph := range m.rf.Plan.Phases {
		if ph.KillAt != 0 {
			l = append(l, m.edit(func(p *Plan) bool { p.Phases[i].KillAt = 0; return true }))
		}
		for j := range ph.GCAt {
			l = append(l, m.edit(func(p *Plan) bool {
				p.Phases[i].GCAt = append(append([]int64(nil), ph.GCAt[:j]...), ph.GCAt[j+1:]...)
				return true
			}))
		}
		if ph.Skew != 0 {
			l = append(l, m.edit(func(p *Plan) bool { p.Phases[i].Skew = 0; return true }))
		}
		if ph.GC {
			l = append(l, m.edit(func(p *Plan) bool { p.Phases[i].GC = false; return true }))
		}
		if ph.Restart {
			l = append(l, m.edit(func(p *Plan) bool { p.Phases[i].Restart = false; return true }))
		}
	}
	return keepAll(l)
}

func num(v any) (int64, bool) {
	if n, ok := v.(json.Number); ok {
		i, err := n.Int64()
		return i, err == nil
	}
	return 0, false
}

// fields simplifies single operations.
func (m *minimiser) fields() (l []*ReplayFile) {
	for i, ph := range m.rf.Plan.Phases {
		for j, c := range ph.Clients {
			for k := range c {
				op := func(f func(o, in map[string]any) bool) {
					l = append(l, m.edit(func(p *Plan) bool {
						o := p.Phases[i].Clients[j][k]
						in, _ := o["in"].(map[string]any)
						if in == nil {
							in = map[string]any{}
							o["in"] = in
						}
						return f(o, in)
					}))
				}
				del := func(key string, inner bool) {
					op(func(o, in map[string]any) bool {
						t := o
						if inner {
							t = in
						}
						if _, ok := t[key]; !ok {
							return false
						}
						delete(t, key)
						return true
					})
				}
				op(func(o, in map[string]any) bool {
					n, ok := num(o["rep"])
					if !ok || n < 2 {
						return false
					}
					o["rep"] = json.Number("1")
					return true
				})
				op(func(o, in map[string]any) bool {
					n, ok := num(o["rep"])
					if !ok || n < 4 {
						return false
					}
					o["rep"] = n / 2
					return true
				})
				op(func(o, in map[string]any) bool {
					cb, _ := o["cb"].(map[string]any)
					if len(cb) == 0 {
						return false
					}
					o["cb"] = map[string]any{}
					return true
				})
				op(func(o, in map[string]any) bool {
					cb, _ := o["cb"].(map[string]any)
					if cb == nil || cb["buf"] == nil {
						return false
					}
					delete(cb, "buf")
					return true
				})
				del("pre", false)
				del("m", false)
				del("dst", false)
				for _, key := range []string{"tw", "sh", "deep", "wild", "sp", "ptr"} {
					del(key, true)
				}
				op(func(o, in map[string]any) bool {
					dm, _ := in["dm"].([]any)
					if len(dm) < 2 {
						return false
					}
					in["dm"] = dm[:len(dm)-1]
					return true
				})
				op(func(o, in map[string]any) bool {
					dm, _ := in["dm"].([]any)
					if len(dm) < 2 {
						return false
					}
					in["dm"] = dm[1:]
					return true
				})
				del("dm", true)
				for _, key := range []string{"z", "n"} {
					for _, to := range []int64{1, 2, 4, 8} {
						op(func(o, in map[string]any) bool {
							n, ok := num(in[key])
							if !ok || n <= to {
								return false
							}
							in[key] = json.Number([]byte{byte('0' + to)})
							return true
						})
					}
					op(func(o, in map[string]any) bool {
						n, ok := num(in[key])
						if !ok || n < 20 {
							return false
						}
						in[key] = n * 3 / 4
						return true
					})
				}
			}
		}
	}
	return keepAll(l)
}

// segments removes preemptions from recorded schedules.
func (m *minimiser) segments() (l []*ReplayFile) {
	for i, ph := range m.rf.Plan.Phases {
		s := ph.Strat.Replay
		if ph.Strat.Kind != "replay" || len(s) < 2 {
			continue
		}
		for n := (len(s) + 1) / 2; n >= 1; n /= 2 {
			if len(s)/n > 200 {
				break
			}
			for k := 0; k < len(s); k += n {
				l = append(l, m.edit(func(p *Plan) bool {
					r := p.Phases[i].Strat.Replay
					p.Phases[i].Strat.Replay = append(r[:k:k], r[min(k+n, len(r)):]...)
					return true
				}))
			}
		}
	}
	return keepAll(l)
}
