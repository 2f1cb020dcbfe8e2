// Package trace writes ndjson traces for TLC.
package trace

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
)

// E is one trace line.
type E map[string]interface{}

// W is a trace file; lines are written in the order of Log calls.
type W struct {
	mu sync.Mutex
	f  *os.File
	b  *bufio.Writer
	N  int
}

func New(path string) *W {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &W{f: f, b: bufio.NewWriterSize(f, 1<<16)}
}

func (w *W) Log(e E) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.put(e)
}

// LogAll writes lines without others between them.
func (w *W) LogAll(es []E) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range es {
		w.put(e)
	}
}

func (w *W) put(e E) {
	d, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	w.b.Write(d)
	w.b.WriteByte('\n')
	w.b.Flush()
	w.N++
}

// Lines is the number of lines written.
func (w *W) Lines() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.N
}

func (w *W) Close() { w.b.Flush(); w.f.Close() }
