// replay runs harnesses natively on recorded solver inputs (JSON list on stdin).
package main

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"runtime/debug"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/props"
	"verif/harness/vp"
)

type kase struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
}

type result struct {
	Idx     int      `json:"idx"`
	Outcome string   `json:"outcome"`
	Label   string   `json:"label"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

func main() {
	debug.SetMemoryLimit(6 << 30)
	out := os.Stdout
	var cs []kase
	if err := json.NewDecoder(os.Stdin).Decode(&cs); err != nil {
		fmt.Println("bad input:", err)
		os.Exit(3)
	}
	net.LookupHost("localhost") // the resolver keeps a channel: made here, outside the bubbles
	os.Args = os.Args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "replay", F: func(t *testing.T) { replay(t, out, cs) }}}, nil, nil)
}

func replay(t *testing.T, out *os.File, cs []kase) {
	for i, c := range cs {
		fmt.Fprintf(out, "BEGIN %d\n", i)
		f := props.All[c.Harness]
		done := make(chan result, 1)
		over := make(chan bool, 1)
		run := func() {
			var r result
			if f == nil {
				r = result{Outcome: "skip", Msg: "no such harness"}
			} else {
				vp.Start(c.Inputs)
				r.Outcome, r.Label, r.Msg, r.Obs = vp.Result(f)
			}
			r.Idx = i
			b, _ := json.Marshal(r)
			fmt.Fprintf(out, "RESULT %s\n", b)
			done <- r
			vp.Shutdown()
		}
		go func() {
			defer func() { // also when the race detector fails the test
				if e := recover(); e != nil {
					select {
					case <-done: // the result is known: only the clean up failed, start afresh
						os.Exit(5)
					default:
						panic(e)
					}
				}
				over <- true
			}()
			if props.Bubble[c.Harness] {
				// virtual time, simulated network
				synctest.Test(t, func(*testing.T) { run() })
			} else {
				run()
			}
		}()
		hang := false
		select {
		case <-over:
		case <-time.After(10 * time.Second):
			hang = true
		}
		if hang {
			select {
			case <-done: // only the clean up is stuck: start afresh for the next case
				os.Exit(5)
			default:
			}
			b, _ := json.Marshal(result{Idx: i, Outcome: "hang", Label: "hang", Msg: "no termination within 10s"})
			fmt.Fprintf(out, "RESULT %s\n", b)
			os.Exit(4)
		}
	}
}
