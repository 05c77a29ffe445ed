package world

import "github.com/trim21/go-phpserialize/internal/verifsim/simrt"

// disk is the simulated storage: what was not synced when the process dies is
// kept, lost or torn sector by sector.
type disk struct {
	sector int
	recs   map[int]*record
	seed   uint64
	n      uint64
}

type record struct {
	cur     []byte // what readers in this process see
	durable []byte
	pending []pend
	typ     string // type of the newest write
	atomic  bool
	ever    bool
}

type pend struct {
	off   int
	data  []byte
	trunc int // >=0: set length
}

func newDisk(sector int, seed uint64) *disk {
	if sector < 1 {
		sector = 32
	}
	return &disk{sector: sector, recs: map[int]*record{}, seed: seed}
}

const diskSite = 1<<13 - 20

func (d *disk) rec(i int) *record {
	r := d.recs[i]
	if r == nil {
		r = &record{}
		d.recs[i] = r
	}
	return r
}

// put writes b over the record. The process may die between any two sectors.
func (d *disk) put(cl *client, i int, b []byte, typ, proto string) {
	r := d.rec(i)
	r.typ = typ
	if proto == "atomic" {
		// a new file, synced, then renamed: old or new, never anything else
		for off := 0; off < len(b); off += d.sector {
			simrt.Y(diskSite)
		}
		r.cur = append([]byte(nil), b...)
		r.durable = r.cur
		r.pending = nil
		r.atomic, r.ever = true, true
		simrt.Y(diskSite + 1)
		return
	}
	r.atomic, r.ever = false, true
	for off := 0; off < len(b); off += d.sector {
		e := off + d.sector
		if e > len(b) {
			e = len(b)
		}
		for len(r.cur) < e {
			r.cur = append(r.cur, 0)
		}
		c := append([]byte(nil), r.cur...)
		copy(c[off:e], b[off:e])
		r.cur = c
		r.pending = append(r.pending, pend{off, b[off:e], -1})
		simrt.Y(diskSite + 2)
	}
	if proto != "notrunc" && len(r.cur) > len(b) {
		r.cur = append([]byte(nil), r.cur[:len(b)]...)
		r.pending = append(r.pending, pend{0, nil, len(b)})
		simrt.Y(diskSite + 3)
	}
	if proto == "nosync" {
		return
	}
	r.durable = r.cur
	r.pending = nil
	simrt.Y(diskSite + 4)
}

// crash leaves only what reached the platter.
func (d *disk) crash(count func(string)) {
	for i := 0; i < 64; i++ {
		r := d.recs[i]
		if r == nil {
			continue
		}
		img := append([]byte(nil), r.durable...)
		for _, p := range r.pending {
			d.n++
			k := simrt.Hash(d.seed, uint64(i), d.n)
			switch k % 4 {
			case 0:
				count("fault.lost-write")
				continue
			case 1:
				if p.trunc < 0 && len(p.data) > 1 {
					count("fault.torn-write")
					h := 1 + int(k>>8)%(len(p.data)-1)
					img = apply(img, pend{p.off, p.data[:h], -1})
					continue
				}
			}
			img = apply(img, p)
		}
		r.cur, r.durable, r.pending = img, img, nil
	}
}

func apply(img []byte, p pend) []byte {
	if p.trunc >= 0 {
		if len(img) > p.trunc {
			return img[:p.trunc]
		}
		return img
	}
	for len(img) < p.off+len(p.data) {
		img = append(img, 0)
	}
	copy(img[p.off:], p.data)
	return img
}
