// Command zzverif runs scenarios produced from the TLA+ specifications against the library
// and records what it did, for validation against the specifications.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"

	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
)

type runner func(line []byte) any

// forEach runs f on every line of standard input on all cores and writes the results in order.
func forEach(workers int, f runner) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	var lines [][]byte
	for {
		l, err := in.ReadBytes('\n')
		l = bytes.TrimSpace(l)
		if len(l) > 0 {
			lines = append(lines, append([]byte(nil), l...))
		}
		if err != nil {
			break
		}
	}
	outs := make([][]byte, len(lines))
	var wg sync.WaitGroup
	next := make(chan int)
	for range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				b, err := json.Marshal(f(lines[i]))
				if err != nil {
					fmt.Fprintln(os.Stderr, "marshal:", err)
					os.Exit(3)
				}
				outs[i] = b
			}
		}()
	}
	for i := range lines {
		next <- i
	}
	close(next)
	wg.Wait()
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	for i := range outs {
		w.Write(outs[i])
		w.WriteByte('\n')
	}
	w.Flush()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

// attempt runs f and reports a panic.
func attempt(f func()) (panicked bool, what string) {
	defer func() {
		if r := recover(); r != nil {
			panicked, what = true, fmt.Sprint(r)
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	f()
	return
}

type zp127 = multzp.Uint
type zp240 = bfvzp.Uint

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zzverif COMMAND < in > out")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	w := runtime.NumCPU()
	switch os.Args[1] {
	case "session":
		forEach(w, func(l []byte) any {
			var s Scenario
			must(json.Unmarshal(l, &s))
			switch s.Field {
			case "zp110":
				return runSession[*zp110.Uint](&s)
			case "zp220":
				return runSession[*zp220.Uint](&s)
			case "zp440":
				return runSession[*zp440.Uint](&s)
			case "zp880":
				return runSession[*zp880.Uint](&s)
			case "zp240":
				return runSession[*zp240](&s)
			}
			return runSession[*zp127](&s)
		})
	case "ring":
		forEach(w, func(l []byte) any {
			var r RingProg
			must(json.Unmarshal(l, &r))
			switch r.Field {
			case "zp110":
				return runRing[*zp110.Uint](&r)
			case "zp220":
				return runRing[*zp220.Uint](&r)
			case "zp440":
				return runRing[*zp440.Uint](&r)
			case "zp880":
				return runRing[*zp880.Uint](&r)
			case "zp240":
				return runRing[*zp240](&r)
			case "toy7681":
				return runRing[*Toy[m7681]](&r)
			case "toy12289":
				return runRing[*Toy[m12289]](&r)
			case "toy40961":
				return runRing[*Toy[m40961]](&r)
			}
			return runRing[*zp127](&r)
		})
	case "map":
		forEach(w, func(l []byte) any {
			var r MapCase
			must(json.Unmarshal(l, &r))
			switch r.Field {
			case "zp110":
				return runMap[*zp110.Uint](&r)
			case "zp220":
				return runMap[*zp220.Uint](&r)
			case "zp440":
				return runMap[*zp440.Uint](&r)
			case "zp880":
				return runMap[*zp880.Uint](&r)
			case "zp240":
				return runMap[*zp240](&r)
			case "toy7681":
				return runMap[*Toy[m7681]](&r)
			case "toy12289":
				return runMap[*Toy[m12289]](&r)
			case "toy40961":
				return runMap[*Toy[m40961]](&r)
			}
			return runMap[*zp127](&r)
		})
	case "pcs":
		forEach(w, func(l []byte) any {
			var t PcsCase
			must(json.Unmarshal(l, &t))
			switch t.Field {
			case "zp110":
				return runPcs[*zp110.Uint](&t)
			case "zp220":
				return runPcs[*zp220.Uint](&t)
			case "zp440":
				return runPcs[*zp440.Uint](&t)
			case "zp880":
				return runPcs[*zp880.Uint](&t)
			case "zp240":
				return runPcs[*zp240](&t)
			case "toy25601":
				return runPcs[*Toy[m25601]](&t)
			}
			return runPcs[*zp127](&t)
		})
	case "params":
		forEach(w, func(l []byte) any {
			var t ParCase
			must(json.Unmarshal(l, &t))
			switch t.Field {
			case "zp110":
				return runParams[*zp110.Uint](&t)
			case "zp220":
				return runParams[*zp220.Uint](&t)
			case "zp440":
				return runParams[*zp440.Uint](&t)
			case "zp880":
				return runParams[*zp880.Uint](&t)
			case "zp240":
				return runParams[*zp240](&t)
			case "toy25601":
				return runParams[*Toy[m25601]](&t)
			case "toy257":
				return runParams[*Toy[m257]](&t)
			}
			return runParams[*zp127](&t)
		})
	case "gauss":
		forEach(w, func(l []byte) any {
			var t GaussCase
			must(json.Unmarshal(l, &t))
			return runGauss(&t)
		})
	case "field":
		forEach(w, func(l []byte) any {
			var t FieldProg
			must(json.Unmarshal(l, &t))
			switch t.Field {
			case "zp110":
				return runField[*zp110.Uint](&t)
			case "zp220":
				return runField[*zp220.Uint](&t)
			case "zp440":
				return runField[*zp440.Uint](&t)
			case "zp880":
				return runField[*zp880.Uint](&t)
			case "zp240":
				return runField[*zp240](&t)
			}
			return runField[*zp127](&t)
		})
	case "sampler":
		forEach(w, func(l []byte) any {
			var t SmpCase
			must(json.Unmarshal(l, &t))
			return runSampler(&t)
		})
	case "transcript":
		forEach(w, func(l []byte) any {
			var t TTarget
			must(json.Unmarshal(l, &t))
			switch t.Field {
			case "zp110":
				return runTranscript[*zp110.Uint](&t)
			case "zp220":
				return runTranscript[*zp220.Uint](&t)
			case "zp440":
				return runTranscript[*zp440.Uint](&t)
			case "zp880":
				return runTranscript[*zp880.Uint](&t)
			case "zp240":
				return runTranscript[*zp240](&t)
			case "toy25601":
				return runTranscript[*Toy[m25601]](&t)
			}
			return runTranscript[*zp127](&t)
		})
	case "forge":
		forEach(w, func(l []byte) any {
			var t FTarget
			must(json.Unmarshal(l, &t))
			switch t.Field {
			case "zp110":
				return runForge[*zp110.Uint](&t)
			case "zp220":
				return runForge[*zp220.Uint](&t)
			case "zp440":
				return runForge[*zp440.Uint](&t)
			case "zp880":
				return runForge[*zp880.Uint](&t)
			case "zp240":
				return runForge[*zp240](&t)
			case "toy25601":
				return runForge[*Toy[m25601]](&t)
			}
			return runForge[*zp127](&t)
		})
	case "cheat":
		forEach(w, func(l []byte) any {
			var t CheatTarget
			must(json.Unmarshal(l, &t))
			switch t.Field {
			case "zp110":
				return runCheat[*zp110.Uint](&t)
			case "zp220":
				return runCheat[*zp220.Uint](&t)
			case "zp440":
				return runCheat[*zp440.Uint](&t)
			case "zp880":
				return runCheat[*zp880.Uint](&t)
			case "zp240":
				return runCheat[*zp240](&t)
			}
			return runCheat[*zp127](&t)
		})
	case "liar":
		forEach(1, func(l []byte) any {
			var t LieTarget
			must(json.Unmarshal(l, &t))
			return runLiar(&t)
		})
	case "blind":
		forEach(1, func(l []byte) any {
			var t BTarget
			must(json.Unmarshal(l, &t))
			if t.What == "rank" && t.Kind == "circuit" {
				return rankCircuit[m25601](&t)
			}
			if t.What == "rank" {
				return rankOpening[m257](&t)
			}
			switch t.Field {
			case "zp110":
				return runBlind[*zp110.Uint](&t)
			case "zp220":
				return runBlind[*zp220.Uint](&t)
			case "zp440":
				return runBlind[*zp440.Uint](&t)
			case "zp880":
				return runBlind[*zp880.Uint](&t)
			case "zp240":
				return runBlind[*zp240](&t)
			}
			return runBlind[*zp127](&t)
		})
	case "conc":
		forEach(1, func(l []byte) any {
			var t ConcItem
			must(json.Unmarshal(l, &t))
			switch t.Kind {
			case "pair":
				if t.Session.Field == "zp240" {
					return concPair[*Rec](&t)
				}
				return concPair[*zp127](&t)
			case "pcs":
				if t.Pcs.Field == "toy25601" {
					return concPcs[*Toy[m25601]](&t)
				}
				return concPcs[*Rec](&t)
			}
			switch t.Rings[0].Field {
			case "toy12289":
				return concRing[*Toy[m12289]](&t)
			case "toy40961":
				return concRing[*Toy[m40961]](&t)
			case "zp127":
				return concRing[*zp127](&t)
			}
			return concRing[*Toy[m7681]](&t)
		})
	case "shape", "tamper":
		shape := os.Args[1] == "shape"
		forEach(w, func(l []byte) any {
			var t Target
			must(json.Unmarshal(l, &t))
			switch t.Field {
			case "zp110":
				return target[*zp110.Uint](&t, shape)
			case "zp220":
				return target[*zp220.Uint](&t, shape)
			case "zp440":
				return target[*zp440.Uint](&t, shape)
			case "zp880":
				return target[*zp880.Uint](&t, shape)
			case "zp240":
				return target[*zp240](&t, shape)
			}
			return target[*zp127](&t, shape)
		})
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
