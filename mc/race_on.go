//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// raceMain runs one scenario with the race detector. Modes 0 and 1 run the
// threads one after the other with the hand-over hidden from the detector, so
// that no ordering between them exists: every conflicting pair of accesses is
// a race report. Mode 2 runs freely.
func raceMain(si, mode, reps int) {
	var mk func() []func() string
	if si >= wideBase {
		mk = wideScenario(si-wideBase, 6000)
		if mk == nil {
			os.Exit(0)
		}
	} else {
		mk = scenarios()[si].mk
	}
	alone := make([]string, 2)
	for rep := 0; rep < reps; rep++ {
		fns := mk()
		res := make([]string, len(fns))
		if mode == 2 {
			for i := range fns { // the last call of the library is not the first one: mode 0 and 1 see first calls
				if rep == 0 {
					alone[i] = fns[i]()
				}
			}
			fns = mk()
			var wg sync.WaitGroup
			var gate int32
			// every thread four times over
			for k := 0; k < 4; k++ {
				for i := range fns {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for atomic.LoadInt32(&gate) == 0 {
							runtime.Gosched()
						}
						s := fns[i]()
						if s != alone[i] {
							fmt.Printf("thread %d returned %q, alone %q", i, cut(s, 600), cut(alone[i], 600))
							os.Exit(1)
						}
					}()
				}
			}
			time.Sleep(50 * time.Microsecond)
			atomic.StoreInt32(&gate, 1)
			wg.Wait()
			continue
		}
		order := []int{0, 1}
		if mode == 1 {
			order = []int{1, 0}
		}
		var turn int32
		var wg sync.WaitGroup
		for pos, i := range order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				runtime.RaceDisable()
				for atomic.LoadInt32(&turn) != int32(pos) {
					runtime.Gosched()
				}
				runtime.RaceEnable()
				res[i] = fns[i]()
				runtime.RaceDisable()
				atomic.AddInt32(&turn, 1)
				runtime.RaceEnable()
			}()
		}
		wg.Wait()
		if rep == 0 {
			copy(alone, res)
		}
		for i := range res {
			if res[i] != alone[i] {
				fmt.Printf("thread %d returned %q, earlier %q", i, res[i], alone[i])
				os.Exit(1)
			}
		}
	}
	os.Exit(0)
}
