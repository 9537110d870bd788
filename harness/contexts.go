package main

import (
	"context"
	"math/rand"
	"time"

	g "github.com/rossmerr/graphblas"
)

// contexts of the library within trees of standard ones (C11)

type ctxNode struct {
	Kind string `json:"kind"`
	Up   int    `json:"up"`
	Mode int    `json:"mode"`
	Key  int    `json:"key"`
	Val  int    `json:"val"`
	Dl   int    `json:"dl"`
}
type ctxStep struct {
	Op   string  `json:"op"`
	Node ctxNode `json:"node"`
	At   int     `json:"at"`
}

type valKey int

var ctxEpoch = time.Now()

func deadline(d int) time.Time {
	return ctxEpoch.Add(time.Duration(d-1)*1000*time.Hour - time.Hour)
}

// anyCtx is one of the contexts that are never cancelled: none of them may make a difference
func anyCtx(n int) context.Context {
	bg := context.Background()
	switch n * 7 % 11 {
	case 0:
		return context.TODO()
	case 1, 2, 3:
		return g.NewContext(bg, g.NonBlocking)
	case 4:
		return g.NewContext(bg, g.Blocking)
	case 5:
		return context.WithValue(bg, valKey(1), 1)
	case 6: // can be, but is not
		c, f := context.WithCancel(bg)
		return context.WithValue(c, valKey(2), f)
	case 7:
		c, f := context.WithCancel(g.NewContext(bg, g.NonBlocking))
		return g.NewContext(context.WithValue(c, valKey(2), f), g.NonBlocking)
	}
	return bg
}

func contextDriver(t *tracer) {
	var gen []struct {
		Ctx []ctxStep `json:"ctx"`
	}
	readGen(&gen)
	for _, p := range gen {
		contextRun(t, p.Ctx)
	}
	rnd := rand.New(rand.NewSource(seed))
	n := 1500
	if thorough {
		n = 20000
	}
	for i := 0; i < n; i++ {
		steps := []ctxStep{}
		kinds := []string{"bg"}
		for l := 3 + rnd.Intn(10); l > 0; l-- {
			if c := rnd.Intn(len(kinds)); rnd.Intn(4) == 0 && (kinds[c] == "cancel" || kinds[c] == "deadline") {
				steps = append(steps, ctxStep{Op: "cancel", At: c + 1})
				continue
			}
			nd := ctxNode{Kind: []string{"lib", "lib", "cancel", "value", "deadline"}[rnd.Intn(5)], Up: len(kinds) - rnd.Intn(2)*rnd.Intn(len(kinds))}
			switch nd.Kind {
			case "lib":
				nd.Mode = rnd.Intn(2)
			case "value":
				nd.Key, nd.Val = 1+rnd.Intn(2), 1+rnd.Intn(100)
			case "deadline":
				nd.Dl = 1 + rnd.Intn(3)
				if rnd.Intn(3) > 0 {
					nd.Dl = 2 + rnd.Intn(2)
				}
			}
			kinds = append(kinds, nd.Kind)
			steps = append(steps, ctxStep{Op: "make", Node: nd})
		}
		contextRun(t, steps)
	}
}

func contextRun(t *tracer, steps []ctxStep) {
	if !t.begin() {
		return
	}
	all := []context.Context{context.Background()}
	cancels := []func(){func() {}}
	evs := []any{}
	out := guard(func() {
		for _, s := range steps {
			ev := J{"op": s.Op, "node": s.Node, "at": s.At}
			if s.Op == "make" {
				up := all[s.Node.Up-1]
				c, f := up, context.CancelFunc(func() {})
				switch s.Node.Kind {
				case "lib":
					c = g.NewContext(up, s.Node.Mode)
				case "cancel":
					c, f = context.WithCancel(up)
				case "value":
					c = context.WithValue(up, valKey(s.Node.Key), s.Node.Val)
				case "deadline":
					c, f = context.WithDeadline(up, deadline(s.Node.Dl))
				}
				all, cancels = append(all, c), append(cancels, f)
			} else {
				cancels[s.At-1]()
			}
			reps := []any{}
			for _, c := range all {
				m, ok := g.BlockingMode(c)
				r := J{"mode": m, "ok": ok, "imode": -1, "err": 0, "done": false, "dl": 0}
				if gc, is := c.(g.Context); is {
					r["imode"] = gc.Mode()
				}
				select {
				case <-c.Done():
					r["done"] = true
				default:
				}
				switch c.Err() {
				case nil:
				case context.Canceled:
					r["err"] = 1
				case context.DeadlineExceeded:
					r["err"] = 2
				default:
					r["err"] = 3
				}
				if d, ok := c.Deadline(); ok {
					r["dl"] = 9
					for i := 1; i < 4; i++ {
						if d.Equal(deadline(i)) {
							r["dl"] = i
						}
					}
				}
				vals := []int{}
				for k := 1; k < 3; k++ {
					v, _ := c.Value(valKey(k)).(int)
					vals = append(vals, v)
				}
				r["vals"] = vals
				reps = append(reps, r)
			}
			ev["reports"] = reps
			evs = append(evs, ev)
		}
	})
	if out != "ok" {
		evs = append(evs, J{"op": out})
	}
	for _, f := range cancels {
		f()
	}
	t.emit(J{"ev": evs})
}
