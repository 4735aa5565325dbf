package checks

import (
	"runtime"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Parallel decides n independent obligations, merging their results in order.
func (c *Ctx) Parallel(n int, f func(c *Ctx, i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	if w < 1 {
		return
	}
	subs := make([]*Ctx, n)
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	var pan interface{}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			funcs := map[*ssa.Function]bool{}
			blocks := map[*ssa.BasicBlock]bool{}
			defer func() {
				mu.Lock()
				for f := range funcs {
					c.Funcs[f] = true
				}
				for b := range blocks {
					c.Blocks[b] = true
				}
				mu.Unlock()
			}()
			for {
				mu.Lock()
				i := next
				next++
				stop := pan != nil
				mu.Unlock()
				if i >= n || stop {
					return
				}
				s := NewCtx(c.P, c.Prop, c.Thorough)
				s.Funcs, s.Blocks = funcs, blocks
				subs[i] = s
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							if pan == nil {
								pan = r
							}
							mu.Unlock()
						}
					}()
					f(s, i)
				}()
			}
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
	for _, s := range subs {
		c.merge(s)
	}
}

func (c *Ctx) merge(s *Ctx) {
	for r, n := range s.Obligations {
		c.Obligations[r] += n
	}
	for _, f := range s.Findings {
		if !c.seen[f.Key()] {
			c.seen[f.Key()] = true
			c.Findings = append(c.Findings, f)
		}
	}
	c.Traces += s.Traces
	c.Notes = append(c.Notes, s.Notes...)
	for r, x := range s.samples {
		if len(c.samples[r]) < 3 {
			c.samples[r] = append(c.samples[r], x...)
		}
	}
}
