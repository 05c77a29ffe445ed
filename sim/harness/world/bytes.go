package world

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/trim21/go-phpserialize/internal/verifsim/ref"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

// twister renders an expectation as other writers might: PHP objects, entries in
// another order, unknown and repeated keys, gaps between indices.
type twister struct{ r simrt.Rng }

func (t *twister) render(b []byte, n *ref.Node, depth int) []byte {
	if n.Kind != 'a' || depth > 50 {
		return ref.Render(b, n, nil)
	}
	type ent struct{ k, v []byte }
	var es []ent
	ints := true
	for _, e := range n.Ents {
		if e.Key.Kind == 's' {
			ints = false
		}
	}
	gap := 0
	for i, e := range n.Ents {
		if t.r.P(1, 40) {
			continue // missing
		}
		k := ref.Render(nil, e.Key, nil)
		if ints && e.Key.Kind == 'i' && !n.Unordered && t.r.P(1, 25) {
			gap += 1 + t.r.N(5)
		}
		if gap > 0 && ints && !n.Unordered {
			k = []byte("i:" + strconv.Itoa(i+gap) + ";")
		}
		v := t.render(nil, e.Val, depth+1)
		if t.r.P(1, 30) {
			v = []byte("N;")
		} else if i > 0 && len(es) > 0 && t.r.P(1, 12) && n.Ents[i-1].Val.Kind == e.Val.Kind {
			v = es[len(es)-1].v // the same once more
		}
		es = append(es, ent{k, v})
		if t.r.P(1, 40) {
			es = append(es, ent{k, t.render(nil, e.Val, depth+1)}) // repeated
		}
	}
	if !ints || len(n.Ents) == 0 {
		for t.r.P(1, 8) {
			k := ref.Render(nil, &ref.Node{Kind: 's', S: "unknown" + strconv.Itoa(t.r.N([]int{100, 100, 1 << 30}[t.r.N(3)]))}, nil)
			if t.r.P(1, 10) {
				k = []byte("i:" + strconv.Itoa(t.r.N(100)) + ";")
			} else if len(n.Ents) > 0 && t.r.P(1, 3) {
				if e := n.Ents[t.r.N(len(n.Ents))]; e.Key.Kind == 's' {
					k = ref.Render(nil, &ref.Node{Kind: 's', S: t.similar(e.Key.S)}, nil)
				}
			}
			vs := []string{"N;", "i:5;", "b:1;", "d:1.5;", "s:3:\"};{\";", "a:1:{i:0;a:0:{}}", "O:1:\"C\":1:{s:1:\"p\";s:1:\"\"\";}", "d:INF;", "i:-9;", "a:2:{s:1:\"a\";i:1;i:3;N;}"}
			es = append(es, ent{k, []byte(vs[t.r.N(len(vs))])})
		}
	}
	if t.r.P(1, 4) {
		for i := len(es) - 1; i > 0; i-- {
			j := t.r.N(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	if !ints && t.r.P(1, 4) {
		cl := []string{"stdClass", "A", "App\\Entity\\User", "é"}[t.r.N(4)]
		b = append(b, "O:"+strconv.Itoa(len(cl))+":\""+cl+"\":"...)
	} else {
		b = append(b, "a:"...)
	}
	b = append(b, strconv.Itoa(len(es))...)
	b = append(b, ":{"...)
	for _, e := range es {
		b = append(b, e.k...)
		b = append(b, e.v...)
	}
	return append(b, '}')
}

// similar is a key which resembles k but is another one.
func (t *twister) similar(k string) string {
	switch t.r.N(12) {
	case 0:
		return "\x00*\x00" + k // a protected property
	case 1:
		return "\x00App\\Entity\x00" + k // a private property
	case 2:
		return strings.ToUpper(k)
	case 3:
		return strings.ToLower(k)
	case 4:
		return " " + k
	case 5:
		return k + " "
	case 6:
		return k + "\x00"
	case 7:
		return k[:len(k)/2]
	case 8:
		return k + k
	case 9:
		return "\"" + k + "\""
	case 10:
		return strings.ReplaceAll(k, "_", "")
	}
	return k + "[]"
}

const alphabet = "aObidsN:;{}\"0123456789-+.eE\x00Cr[]"

// damage does to a record what disks and networks do.
func damage(b []byte, old []byte, sector int, d Damage) []byte {
	out := append([]byte(nil), b...)
	n := len(out)
	if n == 0 {
		return out
	}
	if sector < 1 {
		sector = 16
	}
	switch d.K {
	case "cut":
		return out[:d.A%uint64(n)]
	case "tail":
		// the longer record which was here before shows behind the new one
		if len(old) > n {
			return append(out, old[n:]...)
		}
		if d.A%4 == 0 {
			for i := d.B%3 + 1; i > 0; i-- {
				out = append(out, byte(d.B>>(8*i)))
			}
			return out
		}
		t := []string{"}", ";", "N;", "i:1;", "\x00", " ", "\n", "a:0:{}", "0", "\"", "\r\n", "\t", "  \n", "\x00\x00\x00\x00", "}}", "{}", ":", ";;", "b:1;", "s:0:\"\";", "#", "//", "\v", "\f", "\u00a0", "\ufeff"}
		return append(out, t[d.A/4%uint64(len(t))]...)
	case "double":
		return append(out, b...)
	case "flip":
		out[d.A%uint64(n)] ^= 1 << (d.B % 8)
	case "set":
		out[d.A%uint64(n)] = alphabet[d.B%uint64(len(alphabet))]
	case "dup":
		i := int(d.A % uint64(n))
		j := i + 1 + int(d.B)%sector
		if j > n {
			j = n
		}
		return append(append(append([]byte(nil), out[:j]...), out[i:j]...), out[j:]...)
	case "lose":
		i := int(d.A % uint64(n))
		j := i + 1 + int(d.B)%sector
		if j > n {
			j = n
		}
		return append(out[:i], out[j:]...)
	case "zero":
		i := int(d.A%uint64(n)) / sector * sector
		for j := i; j < i+sector && j < n; j++ {
			out[j] = 0
		}
	case "swap":
		k := n / sector
		if k >= 2 {
			x, y := int(d.A%uint64(k))*sector, int(d.B%uint64(k))*sector
			for j := 0; j < sector; j++ {
				out[x+j], out[y+j] = out[y+j], out[x+j]
			}
		}
	case "stale":
		// one sector still holds the previous record
		i := int(d.A%uint64(n)) / sector * sector
		for j := i; j < i+sector && j < n && j < len(old); j++ {
			out[j] = old[j]
		}
	case "num":
		// another number in one of the length, index or value fields
		var at [][2]int
		for i := 0; i < n; {
			if out[i] < '0' || out[i] > '9' {
				i++
				continue
			}
			j := i
			for j < n && out[j] >= '0' && out[j] <= '9' {
				j++
			}
			at = append(at, [2]int{i, j})
			i = j
		}
		if len(at) == 0 {
			return out
		}
		p := at[d.A%uint64(len(at))]
		cur, _ := strconv.ParseInt(string(out[p[0]:p[1]]), 10, 64)
		var s string
		switch d.B % 16 {
		case 0:
			s = strconv.FormatInt(cur+1, 10)
		case 1:
			s = strconv.FormatInt(cur-1, 10)
		case 2:
			s = "0"
		case 3:
			s = "99999999999999999999"
		case 4:
			s = "9223372036854775807"
		case 5:
			s = "4294967296"
		case 6:
			s = "2147483648"
		case 7:
			s = "00"
		case 8:
			s = ""
		case 9:
			s = "-1"
		case 10:
			s = "18446744073709551615"
		case 11:
			s = strconv.FormatInt(cur+2, 10)
		case 12:
			s = strconv.Itoa(n)
		case 13:
			s = "9223372036854775806"
		case 14:
			s = "100000000"
		case 15:
			s = "1000000000"
		}
		return append(append(append([]byte(nil), out[:p[0]]...), s...), out[p[1]:]...)
	case "counts":
		// all arrays say to be very long
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, out[i])
			if i > 0 && i+1 < n && (out[i-1] == 'a' || out[i-1] == '"') && out[i] == ':' && out[i+1] > '0' && out[i+1] <= '9' {
				j := i + 1
				for j < n && out[j] >= '0' && out[j] <= '9' {
					j++
				}
				if j+1 < n && out[j] == ':' && out[j+1] == '{' {
					b = append(b, []string{"999999", "2147483647", "4294967296", "9223372036854775807"}[d.A%4]...)
					i = j - 1
				}
			}
		}
		return b
	case "type":
		// another type letter
		i := bytes.IndexByte(out[d.A%uint64(n):], ':')
		if i > 0 {
			out[int(d.A%uint64(n))+i-1] = "aObidsNCrR"[d.B%10]
		}
	}
	return out
}

var damageKinds = []string{"cut", "tail", "double", "flip", "flip", "set", "set", "dup", "lose", "zero", "swap", "stale", "num", "num", "num", "type", "counts"}
