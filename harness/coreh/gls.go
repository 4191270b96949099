package main

import (
	"github.com/v2pro/plz/gls"
	"github.com/v2pro/plz/zzverif/sym"
)

// sameShard makes every goroutine's id a multiple of 16 away from the others'
var sameShard bool

func shards() {
	sameShard = sym.Choice("sameshard", 2) == 1
	if sameShard {
		sym.Flag("goidstride", 16)
	}
}

// spawn starts f in a goroutine; natively it looks for one with a suitable id
func spawn(f func()) {
	if sym.Symbolic() || !sameShard {
		go f()
		return
	}
	want := gls.GoID() % 16
	var try func()
	try = func() {
		if gls.GoID()%16 == want {
			f()
		} else {
			go try()
		}
	}
	go try()
}

type copied struct {
	gen int
	at  *int
}

func (c *copied) Copy() interface{} { n := *c.at; return &copied{c.gen + 1, &n} }

type world struct {
	ids  []int64
	left int
	done chan int64
}

var glsKeys = []interface{}{"k", 7}

// what one goroutine must see: the value stored last under each key (gen 0: a plain value, 1: a *copied)
type view struct {
	enabled bool
	plain   [2]interface{}
	gen     [2]int // > 0: a *copied
	at      [2]int
}

func (v view) check(msg string) {
	for i, k := range glsKeys {
		got := gls.Get(k)
		if v.gen[i] > 0 {
			c, ok := got.(*copied)
			sym.Assert(ok, msg)
			sym.Assert(*c.at == v.at[i], msg)
		} else {
			sym.Assert(got == v.plain[i], msg)
		}
	}
	sym.Assert(gls.IsGlsEnabled(gls.GoID()) == v.enabled, "storage is there exactly inside of the helper")
}

func (v view) child() view {
	v.enabled = true
	return v
}

func (w *world) script(v view, depth, ops int) view {
	for o := 0; o < ops; o++ {
		switch sym.Choice("op", 5) {
		case 0:
			return v
		case 1: // set
			k := sym.Choice("key", 2)
			x := int(sym.ByteIn("val", 1, 200))
			if !v.enabled {
				_, p := sym.Panics(func() { gls.Set(glsKeys[k], x) })
				sym.Assert(p, "set without storage is refused")
				break
			}
			gls.Set(glsKeys[k], x)
			v.plain[k], v.gen[k] = x, 0
		case 2: // a value that knows how to copy itself
			if !v.enabled {
				break
			}
			k := sym.Choice("key", 2)
			x := int(sym.ByteIn("val", 1, 200))
			gls.Set(glsKeys[k], &copied{1, &x})
			v.gen[k], v.at[k] = 1, x
		case 3: // change the object behind the own value
			for k := range v.gen {
				if v.gen[k] > 0 {
					x := int(sym.ByteIn("val", 1, 200))
					*gls.Get(glsKeys[k]).(*copied).at = x
					v.at[k] = x
				}
			}
		case 4:
			if depth == 0 {
				return v
			}
			how := sym.Choice("how", 3)
			c := v.child()
			body := func() {
				w.ids = append(w.ids, gls.GoID())
				c.check("a started goroutine sees a snapshot of its parent")
				c2 := w.script(c, depth-1, ops-1)
				c2.check("the own values")
			}
			if how == 2 {
				c = view{enabled: true}
				f := gls.WithEmptyGls(body)
				w.left++
				spawn(func() { f(); w.finish() })
				break
			}
			f := gls.WithGls(body)
			if how == 1 { // called later: still the snapshot
				if v.enabled {
					gls.Set(glsKeys[0], 201)
					v.plain[0], v.gen[0] = 201, 0
				}
			}
			w.left++
			spawn(func() { f(); w.finish() })
		}
		v.check("the own values, last stored")
	}
	return v
}

func (w *world) finish() {
	sym.Assert(!gls.IsGlsEnabled(gls.GoID()), "storage is gone after the helper's function")
	w.done <- 1
}

// Gls: scripts of set, get and start over a tree of goroutines, in every schedule
func Gls() {
	shards()
	w := &world{done: make(chan int64, 8)}
	root := view{}
	root.check("no storage at first")
	root = w.script(root, sym.Param("depth", 2), sym.Param("ops", 3))
	for i := 0; i < w.left; i++ {
		<-w.done
	}
	root.check("the own values at the end")
	for _, id := range w.ids {
		sym.Assert(gls.GetGls(id) == nil, "storage is gone after the goroutine ended")
	}
	sym.Reach("checked")
}

// GlsReuse: one wrapped function run several times, one after the other, nested or at the same time
func GlsReuse() {
	shards()
	var out view
	out.enabled = sym.Choice("outer", 2) == 1
	panics := sym.Choice("panics", 2) == 1
	x := int(sym.ByteIn("x", 1, 100))
	main := func() {
		if out.enabled {
			gls.Set("k", &copied{1, &x})
			gls.Set(7, x)
			out.gen[0], out.at[0], out.plain[1] = 1, x, x
		}
		done := make(chan bool, 3)
		f := gls.WithGls(func() {
			in := out.child()
			in.check("each run starts from the snapshot")
			y := int(sym.ByteIn("y", 101, 200))
			gls.Set(7, y)
			in.plain[1] = y
			if in.gen[0] > 0 {
				*gls.Get("k").(*copied).at = y
				in.at[0] = y
			}
			in.check("a value set by one run is not seen by another")
			done <- true
			if panics {
				panic("f")
			}
		})
		if panics {
			g := f
			f = func() {
				before := gls.IsGlsEnabled(gls.GoID())
				_, p := sym.Panics(g)
				sym.Assert(p, "the panic of the function is not hidden")
				sym.Assert(gls.IsGlsEnabled(gls.GoID()) == before, "storage is gone after a panic")
			}
		}
		switch sym.Choice("how", 3) {
		case 0:
			spawn(f)
			spawn(f)
			<-done
			<-done
		case 1:
			f()
			f()
		case 2:
			spawn(f)
			f()
			<-done
		}
		out.check("the outer values are still there")
	}
	if out.enabled {
		gls.WithEmptyGls(main)()
		sym.Assert(!gls.IsGlsEnabled(gls.GoID()), "storage is gone")
	} else {
		main()
	}
	sym.Reach("checked")
}
