package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The in-memory terminal and gocui's blanking of a view, done by the engine for speed; they
// behave as harness/fake/termbox and gocui's (*View).clearRunes and (*Gui).drawFrameEdges.

const tb = "github.com/nsf/termbox-go."

func (p *Path) tbVar(name string) *Value {
	return p.global(p.eng.pkgByPath("github.com/nsf/termbox-go").Var(name)).(*Value)
}

// screen is the terminal's cells; cells of equal content may share a structure, as nothing
// writes to single fields of a cell (SetChar is not modelled).
type screen struct {
	w, h  int64
	cells []Value
}

func (p *Path) screen() screen {
	return screen{(*p.tbVar("VerifW")).(int64), (*p.tbVar("VerifH")).(int64), (*p.tbVar("VerifCells")).([]Value)}
}

func (s screen) set(x, y int64, c Value) {
	if x >= 0 && x < s.w && y >= 0 && y < s.h {
		s.cells[y*s.w+x] = c
	}
}

func fieldOf(t types.Type, s structure, name string) Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s[i]
		}
	}
	unsup("no field %s", name)
	return nil
}

func init() {
	reg(tb+"SetChar", func(p *Path, fn *ssa.Function, a []Value) Value { unsup("SetChar"); return nil })
	reg(tb+"Clear", func(p *Path, fn *ssa.Function, a []Value) Value {
		s := p.screen()
		cells := make([]Value, s.w*s.h)
		var z Value = structure{int64(0), int64(0), int64(0)}
		for i := range cells {
			cells[i] = z
		}
		*p.tbVar("VerifCells") = cells
		return Iface{}
	})
	reg("verif/harness/tui.Between", func(p *Path, fn *ssa.Function, a []Value) Value {
		lo, hi := a[0].(int64), a[1].(int64)
		r := p.toBool(false)
		for _, c := range p.screen().cells {
			ch := c.(structure)[0]
			if k, ok := ch.(int64); ok {
				if k >= lo && k <= hi {
					return true
				}
				continue
			}
			t, ok := ch.(*Term)
			if !ok || t.S.K != KBV {
				unsup("character of the screen is %T", ch)
			}
			// left to the solver, whatever is known of the character
			cmp := func(a, b *Term) *Term { return p.pool.mk(&Term{Op: "bvule", S: SBool, A: []*Term{a, b}}) }
			w := t.S.W
			x := p.pool.And(cmp(p.pool.BV(uint64(lo), w), t), cmp(t, p.pool.BV(uint64(hi), w)))
			r = p.pool.Or(r, x)
		}
		return p.fromBool(r)
	})
	reg("(*github.com/jroimartin/gocui.Gui).drawFrameEdges", func(p *Path, fn *ssa.Function, a []Value) Value {
		gt, vt := deref(fn.Signature.Recv().Type()), deref(fn.Signature.Params().At(0).Type())
		g, v := (*a[0].(*Value)).(structure), (*a[1].(*Value)).(structure)
		num := func(t types.Type, s structure, n string) int64 {
			k, ok := fieldOf(t, s, n).(int64)
			if !ok {
				unsup("symbolic view")
			}
			return k
		}
		h, w := int64('─'), int64('│')
		if fieldOf(gt, g, "ASCII") != false {
			h, w = '-', '|'
		}
		x0, y0, x1, y1 := num(vt, v, "x0"), num(vt, v, "y0"), num(vt, v, "x1"), num(vt, v, "y1")
		maxX, maxY := num(gt, g, "maxX"), num(gt, g, "maxY")
		sc := p.screen()
		var ch, cw Value = structure{h, a[2], a[3]}, structure{w, a[2], a[3]}
		for x := x0 + 1; x < x1 && x < maxX; x++ {
			for _, y := range []int64{y0, y1} {
				if x >= 0 && y >= 0 && y < maxY {
					sc.set(x, y, ch)
				}
			}
		}
		for y := y0 + 1; y < y1 && y < maxY; y++ {
			for _, x := range []int64{x0, x1} {
				if y >= 0 && x >= 0 && x < maxX {
					sc.set(x, y, cw)
				}
			}
		}
		return Iface{}
	})
	reg(tb+"SetCell", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, ok := a[0].(int64)
		y, ok2 := a[1].(int64)
		if !ok || !ok2 {
			unsup("symbolic screen position")
		}
		p.screen().set(x, y, structure{a[2], a[3], a[4]})
		return tuple{}
	})
	reg("(*github.com/jroimartin/gocui.View).clearRunes", func(p *Path, fn *ssa.Function, a []Value) Value {
		v := a[0].(*Value)
		t := deref(fn.Signature.Recv().Type())
		s := (*v).(structure)
		f := func(n string) int64 {
			k, ok := fieldOf(t, s, n).(int64)
			if !ok {
				unsup("symbolic view")
			}
			return k
		}
		x0, y0, x1, y1 := f("x0"), f("y0"), f("x1"), f("y1")
		fg, bg := fieldOf(t, s, "FgColor"), fieldOf(t, s, "BgColor")
		sc := p.screen()
		var blank Value = structure{int64(' '), fg, bg}
		for y := y0 + 1; y < y1; y++ {
			for x := x0 + 1; x < x1; x++ {
				sc.set(x, y, blank)
			}
		}
		return tuple{}
	})
}
