// Package tagprop checks tag stacks.
package tagprop

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/companyzero/zkc/tagstack"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

// A stack against a slice.
func TestC12Model(t *testing.T) {
	hz.CheckSteps(t, 600, 60, func(t *rapid.T) {
		depth := rapid.IntRange(0, 40).Draw(t, "depth")
		s := tagstack.New(depth)
		var model []uint32
		for i := 0; i < depth; i++ {
			model = append(model, uint32(i))
		}
		var held []uint32
		over, under := 0, 0
		var log []string
		bias := rapid.SampledFrom([]int{0, 3, 5, 7, 10}).Draw(t, "bias")
		t.Repeat(map[string]func(*rapid.T){
			"op": func(t *rapid.T) {
				if rapid.IntRange(0, 9).Draw(t, "op") < bias {
					x := rapid.Uint32().Draw(t, "x")
					if len(held) > 0 && rapid.IntRange(0, 4).Draw(t, "held") > 0 {
						i := rapid.IntRange(0, len(held)-1).Draw(t, "i")
						x = held[i]
						held = append(held[:i:i], held[i+1:]...)
					}
					err := s.Push(x)
					if len(model) < depth {
						if err != nil {
							t.Fatalf("Push on a stack of %d of %d: %v", len(model), depth, err)
						}
						model = append(model, x)
						log = append(log, fmt.Sprintf("push %d", x))
					} else {
						if !errors.Is(err, tagstack.ErrOverflow) {
							t.Fatalf("Push on a full stack of %d: %v", depth, err)
						}
						over++
						log = append(log, "overflow")
					}
					return
				}
				x, err := s.Pop()
				if len(model) == 0 {
					if !errors.Is(err, tagstack.ErrUnderflow) {
						t.Fatalf("Pop on an empty stack: %v, %v", x, err)
					}
					under++
					log = append(log, "underflow")
					return
				}
				want := model[len(model)-1]
				model = model[:len(model)-1]
				if err != nil || x != want {
					t.Fatalf("Pop gave %v, %v; expected %v", x, err, want)
				}
				held = append(held, x)
				log = append(log, "pop")
			},
		})
		if s.Depth() != depth {
			t.Fatalf("Depth is %d, made with %d", s.Depth(), depth)
		}
		hz.ClassIf(over > 0, "histories with overflow")
		hz.ClassIf(under > 0, "histories with underflow")
		hz.Case(over+under > 0, fmt.Sprint(depth, log), fmt.Sprintf("depth %d: %v", depth, log))
	})
}

// Users that take tags and give them back in parallel: a tag has one holder
// at a time, none is lost, and whoever waits for one gets one.
func TestC12Shared(t *testing.T) {
	hz.Check(t, 60, func(t *rapid.T) {
		blocking := rapid.Bool().Draw(t, "blocking")
		depth := rapid.IntRange(1, 8).Draw(t, "depth")
		users := rapid.IntRange(1, 12).Draw(t, "users")
		rounds := rapid.IntRange(1, 60).Draw(t, "rounds")
		maxHold := rapid.IntRange(1, 3).Draw(t, "tags per user")
		if blocking && users*(maxHold-1) >= depth {
			maxHold = 1 // everyone could wait for everyone
		}
		yield := rapid.IntRange(0, 3).Draw(t, "yield")
		var s *tagstack.TagStack
		if blocking {
			s = tagstack.NewBlocking(depth)
		} else {
			s = tagstack.New(depth)
		}
		holders := make([]int32, depth)
		var waits, fails int32
		errs := make([]error, users)
		var wg sync.WaitGroup
		for u := 0; u < users; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				for r := 0; r < rounds; r++ {
					var mine []uint32
					for h := 0; h < maxHold; h++ {
						if blocking && s.Depth() == 0 {
							atomic.AddInt32(&waits, 1)
						}
						x, err := s.Pop()
						if err != nil {
							if blocking {
								errs[u] = fmt.Errorf("blocking Pop: %v", err)
								return
							}
							atomic.AddInt32(&fails, 1)
							break
						}
						if int(x) >= depth {
							errs[u] = fmt.Errorf("tag %d of a stack of %d", x, depth)
							return
						}
						if n := atomic.AddInt32(&holders[x], 1); n != 1 {
							errs[u] = fmt.Errorf("tag %d has %d holders", x, n)
							return
						}
						mine = append(mine, x)
					}
					for i := 0; i < yield; i++ {
						runtime.Gosched()
					}
					for _, x := range mine {
						atomic.AddInt32(&holders[x], -1)
						if err := s.Push(x); err != nil {
							errs[u] = fmt.Errorf("giving back tag %d: %v", x, err)
							return
						}
					}
				}
			}(u)
		}
		hz.Within(t, "users of a tag stack", wg.Wait)
		for u, err := range errs {
			if err != nil {
				t.Fatalf("user %d: %v", u, err)
			}
		}
		got := map[uint32]bool{}
		for i := 0; i < depth; i++ {
			var x uint32
			var err error
			hz.Within(t, "Pop of a tag that was given back", func() { x, err = s.Pop() })
			if err != nil || got[x] || int(x) >= depth {
				t.Fatalf("after all tags were given back, tag %d of %d is %v, %v", i, depth, x, err)
			}
			got[x] = true
		}
		hz.ClassIf(blocking, "shared: blocking")
		hz.ClassIf(!blocking, "shared: failing")
		hz.ClassIf(atomic.LoadInt32(&waits)+atomic.LoadInt32(&fails) > 0, "shared: with contention")
		hz.Case(users > 1, fmt.Sprint(blocking, depth, users, rounds, maxHold, yield), fmt.Sprintf("blocking %v, %d tags, %d users, %d rounds, up to %d tags each", blocking, depth, users, rounds, maxHold))
	})
}

// Pop of an empty blocking stack waits for the next Push and takes its tag.
func TestC12Wait(t *testing.T) {
	hz.Check(t, 30, func(t *rapid.T) {
		depth := rapid.IntRange(1, 6).Draw(t, "depth")
		s := tagstack.NewBlocking(depth)
		for i := 0; i < depth; i++ {
			s.Pop()
		}
		w := rapid.IntRange(1, depth).Draw(t, "waiters")
		c := make(chan uint32, w)
		for i := 0; i < w; i++ {
			go func() { x, _ := s.Pop(); c <- x }()
		}
		select {
		case x := <-c:
			t.Fatalf("Pop of an empty stack returned %d", x)
		case <-time.After(2 * time.Millisecond):
		}
		want := map[uint32]bool{}
		for i := 0; i < w; i++ {
			x := uint32(100 + i)
			want[x] = true
			s.Push(x)
		}
		for i := 0; i < w; i++ {
			select {
			case x := <-c:
				if !want[x] {
					t.Fatalf("a waiter got tag %d", x)
				}
				delete(want, x)
			case <-time.After(hz.WaitLimit):
				t.Fatalf("a waiter was not woken by a Push")
			}
		}
		hz.Class("waiters woken")
		hz.Case(true, fmt.Sprint("wait", depth, w), fmt.Sprintf("%d waiters on an empty stack of %d", w, depth))
	})
}
