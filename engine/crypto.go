package main

import (
	"crypto/aes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/pbkdf2"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"sync"
)

// Cryptographic functions are uninterpreted, except that their value is computed where every
// input byte is known; a path on which both kinds of application of one function occur gets
// the computed values as facts about the uninterpreted one.

func concreteBytes(v []Value) ([]byte, bool) {
	o := make([]byte, len(v))
	for i, x := range v {
		switch y := x.(type) {
		case int64:
			o[i] = byte(y)
		case uint64:
			o[i] = byte(y)
		case *Term:
			if !y.IsConst() {
				return nil, false
			}
			o[i] = byte(y.U)
		default:
			return nil, false
		}
	}
	return o, true
}

func hashByName(n string) func() hash.Hash {
	switch n {
	case "sha256":
		return sha256.New
	case "sha224":
		return sha256.New224
	case "sha512":
		return sha512.New
	case "sha384":
		return sha512.New384
	case "sha1":
		return sha1.New
	case "md5":
		return md5.New
	}
	return nil
}

func concHash(name string, msg []byte) []byte {
	h := hashByName(name)()
	h.Write(msg)
	return h.Sum(nil)
}

func concMac(name string, key, msg []byte) []byte {
	h := hmac.New(hashByName(name), key)
	h.Write(msg)
	return h.Sum(nil)
}

var kdfCache sync.Map

func concKdf(name string, pw, salt []byte, iter, n int) []byte {
	k := [5]interface{}{name, string(pw), string(salt), iter, n}
	if v, ok := kdfCache.Load(k); ok {
		return v.([]byte)
	}
	o, err := pbkdf2.Key(hashByName(name), string(pw), salt, iter, n)
	if err != nil {
		return nil
	}
	kdfCache.Store(k, o)
	return o
}

func concAes(op string, key, blk []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	o := make([]byte, 16)
	if op == "aesenc" {
		c.Encrypt(o, blk)
	} else {
		c.Decrypt(o, blk)
	}
	return o
}

type ufFact struct {
	app, val *Term
	done     bool
}

type ufState struct {
	sym   map[string]bool
	facts map[string][]*ufFact
}

func (p *Path) ufState() *ufState {
	s, _ := p.host["uf"].(*ufState)
	if s == nil {
		s = &ufState{map[string]bool{}, map[string][]*ufFact{}}
		if p.host == nil {
			p.host = map[string]interface{}{}
		}
		p.host["uf"] = s
	}
	return s
}

// ufApply gives the result bytes of a function: conc computes it from known inputs.
func (p *Path) ufApply(name string, out int, parts [][]Value, extra []*Term, conc func(in [][]byte) []byte) []Value {
	in := make([][]byte, len(parts))
	known := true
	for i, v := range parts {
		b, ok := concreteBytes(v)
		if !ok {
			known = false
			break
		}
		in[i] = b
	}
	st := p.ufState()
	mk := func() *Term {
		var as []*Term
		name := name
		for _, v := range parts {
			if t := bytesConcat(p, v); t != nil {
				as = append(as, t)
				if t.S.W != 8*len(v) {
					name += fmt.Sprintf("_t%d", t.S.W) // a token among the bytes
				}
			}
		}
		return p.pool.UF(name, SBV(8*out), append(as, extra...)...)
	}
	emit := func(f *ufFact) {
		if !f.done {
			f.done = true
			p.addPC(p.pool.Eq(f.app, f.val))
		}
	}
	for _, e := range extra {
		if !e.IsConst() {
			known = false
		}
	}
	if known {
		if o := conc(in); o != nil {
			vals := make([]Value, len(o))
			ts := make([]*Term, len(o))
			for i, b := range o {
				ts[i] = p.pool.Byte(b)
				vals[i] = p.fromBV(ts[i], 8, false)
			}
			f := &ufFact{app: mk(), val: p.pool.mkConcat(ts)}
			for _, g := range st.facts[name] {
				if g.app == f.app {
					return vals
				}
			}
			st.facts[name] = append(st.facts[name], f)
			if st.sym[name] {
				emit(f)
			}
			return vals
		}
	}
	t := mk()
	if !st.sym[name] {
		st.sym[name] = true
		for _, f := range st.facts[name] {
			emit(f)
		}
	}
	return splitBytes(p, t, out)
}
