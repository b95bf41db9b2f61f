package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/iotaledger/iota.go/v4/blockissuer/pow"
)

// P28: proof of work.

// refTrailingZeros counts the trailing zero bits of the last 8 bytes of the hash, read as a little endian number.
func refTrailingZeros(msg []byte, nonce uint64) int {
	h := blake(msg, binary.LittleEndian.AppendUint64(nil, nonce))
	n := 0
	for _, b := range h[24:] {
		n += bits.TrailingZeros8(b)
		if b != 0 {
			return n
		}
	}

	return n
}

// powGoroutines counts the goroutines which run code of the worker.
func powGoroutines() (n int, stacks string) {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "blockissuer/pow.") {
			n++
			stacks += g + "\n"
		}
	}

	return n, stacks
}

type mined struct {
	nonce uint64
	err   error
	took  time.Duration
}

func init() {
	register("P28", func(c *Ctx) {
		c.Rule("zeros: the number of trailing zeros of random messages and nonces, nonces with many zeros included, is compared with a bitwise count over the reference hash")
		c.Rule("mine: concurrent Mine calls on shared workers with random targets, worker counts and contexts which are cancelled before, during and after; results must satisfy their own target for their own data, errors must be the documented ones, cancelled calls must return soon and no goroutine may stay behind; run under the race detector")
		c.Assume("A call whose context is cancelled while a nonce is found may return either; 20 s are soon enough for a cancelled call on a loaded machine")

		c.Run("zeros", c.N(200000, 5000000), func(t *Case) {
			r := t.R
			msg := rbytes(r, r.Intn(80))
			nonce := ru64(r)
			if coin(r, 50) { // search for one with many zeros
				best := 0
				for i := uint64(0); i < 3000; i++ {
					if z := refTrailingZeros(msg, i); z > best {
						best, nonce = z, i
					}
				}
			}
			want := refTrailingZeros(msg, nonce)
			keep := append([]byte{}, msg...)
			got := pow.TrailingZeros(msg, nonce)
			t.Check(got == want, "zeros:count", "TrailingZeros(%x, %d) is %d, expected %d", msg, nonce, got, want)
			t.Check(string(keep) == string(msg), "zeros:argument", "the message is changed")
			t.Eval(fmt.Sprintf("zeros/%d/%d", len(msg), want))
			t.Count("hashes compared")
		})

		c.RunSerial("mine", c.N(700, 12000), func(t *Case) {
			r := t.R
			counts := [][]int{nil, {0}, {1}, {2}, {3}, {8}, {-1}, {2, 5}, {33}}[r.Intn(9)]
			w := pow.New(counts...)
			life, end := context.WithCancel(context.Background())
			defer end()
			calls := 1 + r.Intn(4)
			type call struct {
				data   []byte
				target int
				mode   int
				res    mined
			}
			cs := make([]*call, calls)
			shared := rbytes(r, r.Intn(100))
			var wg sync.WaitGroup
			for i := range cs {
				cl := &call{data: rbytes(r, r.Intn(300)), target: r.Intn(12)}
				if coin(r, 2) {
					cl.data = shared
				}
				switch r.Intn(8) {
				case 0:
					cl.target = 65 + r.Intn(100)
				case 1:
					cl.target = -r.Intn(3)
				case 2:
					cl.target = 12 + r.Intn(4)
				case 3, 4:
					cl.target = 40 + r.Intn(25)
				}
				// 0: no cancellation, 1: cancelled before, 2: cancelled while running, 3: deadline, 4: cancelled concurrently with the start
				cl.mode = r.Intn(5)
				if cl.target >= 40 && cl.target <= 64 && cl.mode == 0 {
					cl.mode = 2
				}
				cs[i] = cl
				delay := time.Duration(r.Intn(4000)) * time.Microsecond
				wg.Add(1)
				go func() {
					defer wg.Done()
					// contexts stay alive until nothing is left of the calls
					ctx, cancel := context.WithCancel(life)
					switch cl.mode {
					case 1:
						cancel()
					case 2:
						go func() { time.Sleep(delay); cancel() }()
					case 3:
						ctx, cancel = context.WithTimeout(ctx, delay)
						_ = cancel
					case 4:
						go cancel()
					}
					start := time.Now()
					cl.res.nonce, cl.res.err = w.Mine(ctx, cl.data, cl.target)
					cl.res.took = time.Since(start)
				}()
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				_, st := powGoroutines()
				t.Violate("mine:stuck", "Mine has not returned for 60 s\n%s", st)
				t.Stop()
			}
			for _, cl := range cs {
				cancelled := cl.mode != 0
				t.Eval(fmt.Sprintf("mine/%v/%d/%d/%v", counts, cl.target, cl.mode, cl.res.err))
				switch {
				case cl.target > 64:
					t.Check(errors.Is(cl.res.err, pow.ErrInvalidTargetTrailingZeroes), "mine:target", "target %d: %v", cl.target, cl.res.err)
					t.Count("invalid targets refused")
				case cl.res.err == nil:
					d := blake(cl.data)
					got := refTrailingZeros(d[:], cl.res.nonce)
					t.Check(got >= cl.target, "mine:nonce", "nonce %d has %d trailing zeros, %d are needed (workers %v)", cl.res.nonce, got, cl.target, counts)
					t.Count("nonces verified")
				case errors.Is(cl.res.err, pow.ErrCanceled):
					t.Check(cancelled, "mine:cancelled", "Mine returned %v although its context was never cancelled", cl.res.err)
					t.Check(cl.res.took < 20*time.Second, "mine:cancel-late", "a cancelled Mine took %s", cl.res.took)
					t.Count("cancelled calls")
				default:
					t.Violate("mine:error", "Mine returned %v for target %d", cl.res.err, cl.target)
				}
			}
			// nothing is left running
			var n int
			var st string
			for i := 0; i < 200; i++ {
				if n, st = powGoroutines(); n == 0 {
					break
				}
				time.Sleep(time.Duration(i) * time.Millisecond)
			}
			t.Check(n == 0, "mine:goroutines", "%d goroutines of the worker are left after all calls returned\n%s", n, st)
			t.Count("runs without goroutines left behind")
		})
	})
}
