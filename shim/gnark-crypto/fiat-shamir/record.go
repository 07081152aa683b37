package fiatshamir

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
)

// Event is one call on a transcript.
type Event struct {
	T    int    // number of the transcript within the recording
	Op   string // "new", "bind" or "challenge"
	Name string
	Data []byte
}

// Recorder receives the transcript calls made by one goroutine.
type Recorder struct {
	Events []Event
	nT     int
	// Program, if set, may replace the value of a challenge.
	Program func(name string, value []byte) []byte
}

var recorders sync.Map // goroutine id -> *Recorder

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// Record attaches r to the calling goroutine; nil detaches.
func Record(r *Recorder) {
	if r == nil {
		recorders.Delete(goid())
		return
	}
	recorders.Store(goid(), r)
}

func recorder() *Recorder {
	if r, ok := recorders.Load(goid()); ok {
		return r.(*Recorder)
	}
	return global.Load()
}

var global atomic.Pointer[Recorder]

// RecordAll attaches r to every goroutine without a recorder of its own; nil detaches.
func RecordAll(r *Recorder) { global.Store(r) }
