package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"math/big"
	"sort"
	"time"
)

// shrinker reduces a JSON tree while a test keeps failing.
type shrinker struct {
	test     func(json.RawMessage) bool
	deadline time.Time
	tried    int
	seen     map[string]bool
}

func parse(b json.RawMessage) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

func encode(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

type ref struct {
	get func() any
	set func(any)
	del func() // for members of objects
	key string
}

// walk lists all places of the tree.
func walk(v any, set func(any), del func(), key string, f func(ref)) {
	f(ref{func() any { return v }, set, del, key})
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(x[k], func(n any) { x[k] = n }, func() { delete(x, k) }, k, f)
		}
	case []any:
		for i := range x {
			walk(x[i], func(n any) { x[i] = n }, nil, "", f)
		}
	}
}

func places(root any) []ref {
	var out []ref
	walk(root, nil, nil, "", func(r ref) { out = append(out, r) })
	return out
}

func (s *shrinker) over() bool { return time.Now().After(s.deadline) }

func (s *shrinker) ok(root any) bool {
	if s.over() {
		return false
	}
	b := encode(root)
	if s.seen[string(b)] {
		return false
	}
	s.seen[string(b)] = true
	s.tried++
	return s.test(b)
}

// run shrinks and returns the smallest tree found.
func (s *shrinker) run(b json.RawMessage) json.RawMessage {
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	root := parse(b)
	for !s.over() {
		before := string(encode(root))
		s.arrays(&root)
		s.members(&root)
		s.scalars(&root)
		if string(encode(root)) == before {
			break
		}
	}
	return encode(root)
}

// arrays drops parts of lists, long lists first.
func (s *shrinker) arrays(root *any) {
	n := len(places(*root))
	for i := 0; i < n && !s.over(); i++ {
		ps := places(*root)
		if i >= len(ps) {
			break
		}
		p := ps[i]
		a, ok := p.get().([]any)
		if !ok || len(a) == 0 || p.set == nil {
			continue
		}
		cur := a
		for size := len(cur); size >= 1; {
			removed := false
			for at := 0; at < len(cur) && !s.over(); {
				end := min(len(cur), at+size)
				next := append(append([]any{}, cur[:at]...), cur[end:]...)
				p.set(next)
				if s.ok(*root) {
					cur = next
					removed = true
				} else {
					p.set(cur)
					at += size
				}
			}
			if size == 1 && !removed {
				break
			}
			if size > 1 {
				size = (size + 1) / 2
			}
			if len(cur) == 0 {
				break
			}
		}
		p.set(cur)
		n = len(places(*root))
	}
}

// members drops members of objects, which makes them zero.
func (s *shrinker) members(root *any) {
	for i := 0; !s.over(); i++ {
		ps := places(*root)
		if i >= len(ps) {
			break
		}
		p := ps[i]
		if p.del == nil {
			continue
		}
		old := p.get()
		p.del()
		if s.ok(*root) {
			i--
			continue
		}
		p.set(old)
	}
}

// scalars makes numbers and strings smaller.
func (s *shrinker) scalars(root *any) {
	for i := 0; !s.over(); i++ {
		ps := places(*root)
		if i >= len(ps) {
			break
		}
		p := ps[i]
		if p.set == nil {
			continue
		}
		switch x := p.get().(type) {
		case json.Number:
			s.number(root, p, x)
		case string:
			s.text(root, p, x)
		case bool:
			if x && p.del == nil {
				p.set(false)
				if !s.ok(*root) {
					p.set(x)
				}
			}
		}
	}
}

func (s *shrinker) number(root *any, p ref, x json.Number) {
	v, ok := new(big.Int).SetString(string(x), 10)
	if !ok {
		return
	}
	try := func(n *big.Int) bool {
		if n.Cmp(v) == 0 {
			return false
		}
		p.set(json.Number(n.String()))
		if s.ok(*root) {
			v = n
			return true
		}
		p.set(json.Number(v.String()))
		return false
	}
	for _, k := range []int64{0, 1, 2} {
		if n := big.NewInt(k); n.CmpAbs(v) < 0 && try(n) {
			return
		}
	}
	for v.Sign() != 0 && try(new(big.Int).Quo(v, big.NewInt(2))) {
	}
	for k := 0; k < 8 && v.Sign() > 0 && try(new(big.Int).Sub(v, big.NewInt(1))); k++ {
	}
}

func (s *shrinker) text(root *any, p ref, x string) {
	if raw, err := base64.StdEncoding.DecodeString(x); err == nil && len(raw) > 0 && len(x) > 0 {
		cur := raw
		try := func(n []byte) bool {
			p.set(base64.StdEncoding.EncodeToString(n))
			if s.ok(*root) {
				cur = n
				return true
			}
			p.set(base64.StdEncoding.EncodeToString(cur))
			return false
		}
		for size := len(cur); size >= 1; size /= 2 {
			for at := 0; at < len(cur) && !s.over(); {
				end := min(len(cur), at+size)
				if !try(append(append([]byte{}, cur[:at]...), cur[end:]...)) {
					at += size
				}
			}
		}
		for i := range cur {
			if cur[i] != 0 && len(cur) <= 64 {
				n := append([]byte{}, cur...)
				n[i] = 0
				try(n)
			}
		}
		return
	}
	r := []rune(x)
	if len(r) == 0 {
		return
	}
	cur := r
	for size := len(cur); size >= 1; size /= 2 {
		for at := 0; at < len(cur) && !s.over(); {
			end := min(len(cur), at+size)
			n := append(append([]rune{}, cur[:at]...), cur[end:]...)
			p.set(string(n))
			if s.ok(*root) {
				cur = n
			} else {
				p.set(string(cur))
				at += size
			}
		}
	}
}
