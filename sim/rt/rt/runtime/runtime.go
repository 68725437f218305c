// Package runtime is the simulated package runtime.
package runtime

import "github.com/go-stomp/stomp/v3/zzverif/sim"

func Gosched()           { sim.Yield() }
func NumGoroutine() int  { return len(sim.Alive()) + 1 }
func GOMAXPROCS(int) int { return 8 }
func NumCPU() int        { return 8 }
